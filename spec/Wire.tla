------------------------------- MODULE Wire -------------------------------
(* The wire format: what bytes a value of a layout is, and what value (or    *)
(* refusal) a byte string is for a layout.                                   *)
(*                                                                           *)
(* Layouts                                      Values                       *)
(*  <<"int", n>>      n bytes, big endian       n bytes                      *)
(*  <<"big">>         1-byte length, bytes      minimal bytes (<<>> is 0)    *)
(*  <<"uint">>        the same, at most 8       minimal bytes                *)
(*  <<"fix", n>>      n bytes                   n bytes                      *)
(*  <<"bool">>        one byte 0 or 1           TRUE, FALSE                  *)
(*  <<"str">>         4-byte length, bytes      bytes                        *)
(*  <<"bytes", k>>    k-byte length, bytes      bytes                        *)
(*  <<"list", k, T>>  k-byte count, items       sequence                     *)
(*  <<"arr", n, T>>   n items                   sequence                     *)
(*  <<"opt", T>>      0, or 1 and the item      <<>> or <<item>>             *)
(*  <<"rec", f>>      the fields in order       sequence; f[i] = <<name, T>> *)
(*  <<"tok">>         4-byte count, then id and amount (both "big"), ids     *)
(*                    increasing, zero amounts left out                      *)
(*                                              sequence of <<id, amount>>   *)
(*  <<"status">>      1-byte length, then nothing (failed), 1 (succeeded)    *)
(*                    or 32 bytes               bytes                        *)
(*  <<"tx">>          kind 0, 4-byte length, RLP list of the 15 parts        *)
(*                                              sequence of byte strings     *)
(*  <<"dep", T>>      version 1, 3-byte count, items                         *)
(*  <<"rcpt", f>>, <<"mblk", f>>, <<"rblk", f>>  as "rec"                    *)
EXTENDS Naturals, Sequences, TLC

(* n as k big-endian bytes *)
RECURSIVE BE(_, _)
BE(n, k) == IF k = 0 THEN <<>> ELSE Append(BE(n \div 256, k - 1), n % 256)
RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE Num(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Big(b) == <<Len(b)>> \o b

RlpStr(b) == IF Len(b) = 1 /\ b[1] < 128 THEN b
             ELSE IF Len(b) < 56 THEN <<128 + Len(b)>> \o b
             ELSE IF Len(b) < 256 THEN <<184, Len(b)>> \o b
             ELSE <<185>> \o BE(Len(b), 2) \o b
RlpList(b) == IF Len(b) < 56 THEN <<192 + Len(b)>> \o b
              ELSE IF Len(b) < 256 THEN <<248, Len(b)>> \o b
              ELSE <<249>> \o BE(Len(b), 2) \o b
RlpTx(v) == RlpList(Flat([i \in 1..15 |-> RlpStr(v[i])]))

Fields(s) == s[2]
IsRec(s) == s[1] \in {"rec", "rcpt", "mblk", "rblk"}

RECURSIVE Enc(_, _)
Enc(s, v) ==
    CASE s[1] \in {"int", "fix"} -> v
      [] s[1] \in {"big", "uint"} -> Big(v)
      [] s[1] = "bool" -> <<IF v THEN 1 ELSE 0>>
      [] s[1] = "str" -> BE(Len(v), 4) \o v
      [] s[1] = "bytes" -> BE(Len(v), s[2]) \o v
      [] s[1] = "list" -> BE(Len(v), s[2]) \o Flat([i \in DOMAIN v |-> Enc(s[3], v[i])])
      [] s[1] = "arr" -> Flat([i \in DOMAIN v |-> Enc(s[3], v[i])])
      [] s[1] = "opt" -> IF v = <<>> THEN <<0>> ELSE <<1>> \o Enc(s[2], v[1])
      [] IsRec(s) -> Flat([i \in DOMAIN s[2] |-> Enc(s[2][i][2], v[i])])
      [] s[1] = "tok" -> LET nz == SelectSeq(v, LAMBDA p : p[2] # <<>>)
                         IN BE(Len(nz), 4) \o Flat([i \in DOMAIN nz |-> Big(nz[i][1]) \o Big(nz[i][2])])
      [] s[1] = "status" -> <<Len(v)>> \o v
      [] s[1] = "tx" -> LET r == RlpTx(v) IN <<0>> \o BE(Len(r), 4) \o r
      [] s[1] = "dep" -> <<1>> \o BE(Len(v), 3) \o Flat([i \in DOMAIN v |-> Enc(s[2], v[i])])

(* Without the named fields: what a seal commits to. *)
EncWithout(s, v, out) == Flat([i \in DOMAIN s[2] |-> IF s[2][i][1] \in out THEN <<>> ELSE Enc(s[2][i][2], v[i])])

(* The value a decoder gets back: entries that are not encoded are gone. *)
RECURSIVE Kept(_, _)
Kept(s, v) ==
    CASE s[1] \in {"list", "arr"} -> [i \in DOMAIN v |-> Kept(s[3], v[i])]
      [] s[1] \in {"opt", "dep"} -> [i \in DOMAIN v |-> Kept(s[2], v[i])]
      [] IsRec(s) -> [i \in DOMAIN v |-> Kept(s[2][i][2], v[i])]
      [] s[1] = "tok" -> SelectSeq(v, LAMBDA p : p[2] # <<>>)
      [] OTHER -> v

(* Decoding b from offset p.  Result <<"ok", value, next offset>>, <<"bad">> or,
   where another format starts (the inside of a transaction), <<"open">>.     *)
Bad == <<"bad">>
Open == <<"open">>
Take(b, p, n) == SubSeq(b, p + 1, p + n)
Has(b, p, n) == p + n <= Len(b)
RECURSIVE Strip(_)
Strip(b) == IF b # <<>> /\ b[1] = 0 THEN Strip(Tail(b)) ELSE b
(* a length of k bytes, which never exceeds what is left *)
LenAt(b, p, k) == IF ~Has(b, p, k) THEN <<"bad">>
                  ELSE IF k = 4 /\ Take(b, p, 1) # <<0>> THEN <<"bad">>   \* 16M and more: longer than any input here
                  ELSE IF p + k + Num(Take(b, p, k)) > Len(b) THEN <<"bad">>
                  ELSE <<"ok", Num(Take(b, p, k)), p + k>>
VarAt(b, p, k) == LET l == LenAt(b, p, k) IN IF l[1] = "bad" THEN Bad ELSE <<"ok", Take(b, l[3], l[2]), l[3] + l[2]>>

RECURSIVE Dec(_, _, _), DecSeq(_, _, _, _), DecTok(_, _, _), DecRec(_, _, _, _)
DecSeq(T, b, p, n) ==
    IF n = 0 THEN <<"ok", <<>>, p>>
    ELSE LET r == Dec(T, b, p)
         IN IF r[1] # "ok" THEN r
            ELSE LET q == DecSeq(T, b, r[3], n - 1) IN IF q[1] # "ok" THEN q ELSE <<"ok", <<r[2]>> \o q[2], q[3]>>
DecRec(f, b, p, i) ==
    IF i > Len(f) THEN <<"ok", <<>>, p>>
    ELSE LET r == Dec(f[i][2], b, p)
         IN IF r[1] # "ok" THEN r
            ELSE LET q == DecRec(f, b, r[3], i + 1) IN IF q[1] # "ok" THEN q ELSE <<"ok", <<r[2]>> \o q[2], q[3]>>
DecTok(b, p, n) ==
    IF n = 0 THEN <<"ok", <<>>, p>>
    ELSE LET k == VarAt(b, p, 1)
         IN IF k[1] = "bad" THEN Bad
            ELSE LET a == VarAt(b, k[3], 1)
                 IN IF a[1] = "bad" THEN Bad
                    ELSE LET q == DecTok(b, a[3], n - 1)
                         IN IF q[1] # "ok" THEN q ELSE <<"ok", <<<<Strip(k[2]), Strip(a[2])>>>> \o q[2], q[3]>>
Small(b, p) == Has(b, p, 4) /\ Take(b, p, 1) = <<0>>
Dec(s, b, p) ==
    CASE s[1] \in {"int", "fix"} -> IF Has(b, p, s[2]) THEN <<"ok", Take(b, p, s[2]), p + s[2]>> ELSE Bad
      [] s[1] = "big" -> LET r == VarAt(b, p, 1) IN IF r[1] = "bad" THEN Bad ELSE <<"ok", Strip(r[2]), r[3]>>
      [] s[1] = "uint" -> LET r == VarAt(b, p, 1) IN IF r[1] = "bad" THEN Bad ELSE IF Len(r[2]) > 8 THEN Open ELSE <<"ok", Strip(r[2]), r[3]>>
      [] s[1] = "bool" -> IF Has(b, p, 1) /\ b[p + 1] \in {0, 1} THEN <<"ok", b[p + 1] = 1, p + 1>> ELSE Bad
      [] s[1] = "str" -> VarAt(b, p, 4)
      [] s[1] = "bytes" -> VarAt(b, p, s[2])
      [] s[1] = "list" -> LET l == LenAt(b, p, s[2]) IN IF l[1] = "bad" THEN Bad ELSE DecSeq(s[3], b, l[3], l[2])
      [] s[1] = "arr" -> DecSeq(s[3], b, p, s[2])
      [] s[1] = "opt" -> IF ~Has(b, p, 1) THEN Bad
                         ELSE IF b[p + 1] = 0 THEN <<"ok", <<>>, p + 1>>
                         ELSE LET r == Dec(s[2], b, p + 1) IN IF r[1] # "ok" THEN r ELSE <<"ok", <<r[2]>>, r[3]>>
      [] IsRec(s) -> DecRec(s[2], b, p, 1)
      [] s[1] = "tok" -> IF ~Has(b, p, 4) THEN Bad ELSE IF ~Small(b, p) THEN Bad
                         ELSE IF 2 * Num(Take(b, p, 4)) > Len(b) THEN Bad
                         ELSE LET r == DecTok(b, p + 4, Num(Take(b, p, 4)))
                              IN IF r[1] # "ok" THEN r
                                 ELSE IF \E i \in DOMAIN r[2] : Len(r[2][i][1]) > 8 THEN Open
                                 ELSE IF \E i, j \in DOMAIN r[2] : i < j /\ r[2][i][1] = r[2][j][1] THEN Open
                                 ELSE <<"ok", r[2], r[3]>>
      [] s[1] = "status" -> LET r == VarAt(b, p, 1) IN IF r[1] = "bad" THEN Bad
                                                     ELSE IF r[2] \in {<<>>, <<1>>} \/ Len(r[2]) = 32 THEN r ELSE Bad
      [] s[1] = "tx" -> IF ~Has(b, p, 1) \/ b[p + 1] # 0 THEN Bad
                        ELSE LET r == VarAt(b, p + 1, 4) IN IF r[1] = "bad" THEN Bad ELSE Open
      [] s[1] = "dep" -> IF ~Has(b, p, 4) THEN Bad
                         ELSE IF b[p + 1] \notin {0, 1} THEN Bad
                         ELSE IF b[p + 1] = 0 THEN Open
                         ELSE LET l == LenAt(b, p + 1, 3) IN IF l[1] = "bad" THEN Bad ELSE DecSeq(s[2], b, l[3], l[2])
============================================================================

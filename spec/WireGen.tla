------------------------------ MODULE WireGen ------------------------------
(* Messages with their bytes, damaged bytes with their meaning, and layouts  *)
(* made up at random.                                                        *)
EXTENDS WireLayouts, Json
CONSTANTS MaxQ
VARIABLES hist, ph
gvars == <<hist, ph>>
Pick(S) == RandomElement(S)
Edge == {0, 1, 127, 128, 255}
PickByte(z) == IF Pick(1..3) = 1 THEN Pick(Edge) ELSE Pick(0..255)
Pattern(n, s, t) == [i \in 1..n |-> (s * i + t) % 256]
RECURSIVE RBytes(_)
RBytes(n) == IF n = 0 THEN <<>> ELSE IF n > 40 THEN Pattern(n, Pick({0, 1, 7, 251}), Pick(0..255)) ELSE Append(RBytes(n - 1), PickByte(n))
NZ(b) == IF b # <<>> /\ b[1] = 0 THEN <<1>> \o Tail(b) ELSE b
RMin(m) == NZ(RBytes(Pick(0..m)))
RLen(k) == IF k = 1 THEN Pick({0, 1, 2, 31, 32, 55, 56, 200, 255}) ELSE Pick({0, 1, 2, 31, 32, 55, 56, 57, 200, 255, 256, 257, 300})
RCount(d, k) == IF d >= 2 THEN Pick({0, 1}) ELSE IF d = 1 THEN Pick({0, 1, 1, 2}) ELSE Pick({0, 1, 1, 2, 3})
TokPool == << <<>>, <<1>>, <<2>>, <<9, 217>>, <<139, 176>>, <<255, 255, 255, 255>>, <<1, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>> >>
RECURSIVE RTok(_, _)
RTok(i, w) == IF i = 0 THEN <<>> ELSE IF Pick(1..w) > 1 THEN RTok(i - 1, w) ELSE Append(RTok(i - 1, w), <<TokPool[i], RMin(Pick({0, 1, 8, 32}))>>)

RECURSIVE RVal(_, _), RList(_, _, _), RFields(_, _, _)
RList(T, n, d) == IF n = 0 THEN <<>> ELSE Append(RList(T, n - 1, d), RVal(T, d + 1))
RFields(f, i, d) == IF i = 0 THEN <<>> ELSE Append(RFields(f, i - 1, d), RVal(f[i][2], d))
RVal(s, d) ==
    CASE s[1] \in {"int", "fix"} -> RBytes(s[2])
      [] s[1] = "big" -> RMin(Pick({0, 1, 2, 8, 32, 33, 40}))
      [] s[1] = "uint" -> RMin(8)
      [] s[1] = "bool" -> Pick(BOOLEAN)
      [] s[1] = "str" -> RBytes(Pick({0, 1, 5, 36}))
      [] s[1] = "bytes" -> RBytes(RLen(s[2]))
      [] s[1] = "list" -> RList(s[3], IF s[3][1] \in {"int", "fix"} /\ d = 0 /\ Pick(1..12) = 1 THEN Pick({30, 255}) ELSE RCount(d, s[2]), d)
      [] s[1] = "arr" -> RList(s[3], s[2], d)
      [] s[1] = "opt" -> IF Pick(1..2) = 1 THEN <<>> ELSE <<RVal(s[2], d)>>
      [] IsRec(s) -> RFields(s[2], Len(s[2]), d)
      [] s[1] = "tok" -> RTok(Len(TokPool), Pick({1, 2, 3, 20}))
      [] s[1] = "status" -> Pick({<<>>, <<1>>, Pattern(32, 7, 3)})
      [] s[1] = "tx" -> <<RMin(8), RMin(12), RMin(8), Pick({<<>>, Pattern(20, 5, 1)}), RMin(32), RBytes(Pick({0, 1, 4, 55, 56, 68, 256})), RMin(4),
                          RBytes(4), RBytes(4), RMin(8), RMin(8), RMin(4), RMin(1), RMin(32), RMin(32)>>
      [] s[1] = "dep" -> RList(s[2], Pick({0, 1, 2, 3}), d)

(* layouts made up; options and wide lengths only on fields, as the tags allow *)
RECURSIVE RLay(_), RLayF(_, _)
FieldNames == <<"A", "B", "C", "D", "E", "F", "G">>
Atom(z) == Pick({Int(1), Int(2), Int(4), Int(8), Int(16), Int(32), BigI, <<"uint">>, Bool, Str, Fix(1), Fix(3), Fix(20), Bytes(1), Tok})
RLay(d) == IF d = 0 THEN Atom(d)
           ELSE CASE Pick(1..6) = 1 -> List(1, RLay(d - 1))
                  [] Pick(1..6) = 1 -> <<"arr", Pick(1..3), RLay(d - 1)>>
                  [] Pick(1..3) = 1 -> Rec(RLayF(Pick(1..4), d - 1))
                  [] OTHER -> Atom(d)
RField(d) == CASE Pick(1..5) = 1 -> List(Pick(1..4), RLay(d - 1))
               [] Pick(1..5) = 1 -> Bytes(Pick(1..4))
               [] Pick(1..4) = 1 -> Opt(RLay(d - 1))
               [] OTHER -> RLay(d)
RLayF(n, d) == IF n = 0 THEN <<>> ELSE Append(RLayF(n - 1, d), <<FieldNames[n], IF d = 0 THEN RLay(0) ELSE RField(d)>>)

(* damage *)
Repl(b, p, x) == [b EXCEPT ![p] = x]
Damage(k, b, p, x) == CASE k = 1 -> Repl(b, p, x)
                        [] k = 2 -> Repl(b, p, (b[p] + x) % 256)
                        [] k = 3 -> SubSeq(b, 1, p) \o <<x>> \o SubSeq(b, p + 1, Len(b))
                        [] k = 4 -> SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, Len(b))
                        [] k = 5 -> b \o <<x, p % 256>>
Meaning(s, m) == LET r == Dec(s, m, 0) IN IF r[1] = "ok" THEN [st |-> "ok", b |-> m, v |-> Kept(s, r[2]), n |-> r[3], canon |-> Enc(s, r[2]) = SubSeq(m, 1, r[3])] ELSE [st |-> r[1], b |-> m, v |-> <<>>, n |-> 0, canon |-> FALSE]
Pos(b) == IF Pick(1..2) = 1 THEN Pick(1..Len(b)) ELSE IF Len(b) < 12 THEN Pick(1..Len(b)) ELSE Pick(1..12)
RECURSIVE Damages(_, _, _)
Damages(s, b, n) == IF n = 0 THEN <<>>
                    ELSE Append(Damages(s, b, n - 1), Meaning(s, Damage(Pick(1..5), b, Pos(b), IF Pick(1..2) = 1 THEN Pick(Edge \cup {2, 3}) ELSE Pick(0..255))))
NDam(b) == IF Len(b) > 1500 THEN 1 ELSE 3

Item(kind, name, op, s, v, b, ds, fr, seal) ==
    [kind |-> kind, name |-> name, num |-> op, s |-> s, v |-> v, kept |-> Kept(s, v), b |-> b, dam |-> ds, frame |-> fr, seal |-> seal]
SealOf(name, s, v) == IF name = "types.RootBlockHeader" THEN EncWithout(s, v, RootSealLess)
                      ELSE IF name = "types.MinorBlockHeader" THEN EncWithout(s, v, MinorSealLess) ELSE <<>>

GInit == hist = <<>> /\ ph = "make"
Make ==
    /\ ph = "make" /\ Len(hist) < MaxQ
    /\ \E k \in {Pick(1..3)} :
         CASE k = 1 -> \E m \in {Pick(DOMAIN Peer)} : \E v \in {RVal(Peer[m][3], 0)} : \E b \in {Enc(Peer[m][3], v)} :
                       \E br \in {RBytes(4)} : \E id \in {RBytes(8)} : \E ds \in {Damages(Peer[m][3], b, NDam(b))} :
                         hist' = Append(hist, Item("peer", Peer[m][2], Peer[m][1], Peer[m][3], v, b, ds,
                                                   [branch |-> br, id |-> id, b |-> Frame(br, Peer[m][1], id, b)], <<>>))
           [] k = 2 -> \E m \in {Pick(DOMAIN Inner)} : \E v \in {RVal(Inner[m][2], 0)} : \E b \in {Enc(Inner[m][2], v)} :
                       \E ds \in {Damages(Inner[m][2], b, NDam(b))} :
                         hist' = Append(hist, Item("inner", Inner[m][1], 0, Inner[m][2], v, b, ds,
                                                   [branch |-> <<>>, id |-> <<>>, b |-> <<>>], SealOf(Inner[m][1], Inner[m][2], v)))
           [] k = 3 -> \E s \in {Rec(RLayF(Pick(1..7), 3))} : \E v \in {RVal(s, 0)} : \E b \in {Enc(s, v)} :
                       \E ds \in {Damages(s, b, NDam(b))} :
                         hist' = Append(hist, Item("made", "", 0, s, v, b, ds, [branch |-> <<>>, id |-> <<>>, b |-> <<>>], <<>>))
    /\ UNCHANGED ph
Finish == /\ ph = "make" /\ Len(hist) >= MaxQ /\ ph' = "done" /\ PrintT(<<"TRACE", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][Make \/ Finish]_gvars
============================================================================

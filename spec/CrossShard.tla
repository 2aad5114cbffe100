----------------------------- MODULE CrossShard -----------------------------
(* Money of a sharded chain: transactions inside a shard, transfers between  *)
(* shards carried by root blocks, root-block rewards, fees, block rewards    *)
(* and burns. Blocks form trees: every shard block names its parent and the  *)
(* root block it depends on, every root block its parent and the list of     *)
(* shard headers it confirms.                                                *)
(*                                                                           *)
(* The deposits a shard has to receive are one stream, fixed by the root     *)
(* chain: for each root block its reward, then for each listed header of     *)
(* another shard that block's transfers to this shard, in order. A block     *)
(* takes the stream on from where its parent stopped until its cross-shard   *)
(* gas limit is reached.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Shards, MaxM, MaxR
VARIABLES mb,   \* shard blocks
          rb,   \* root blocks; 1 is the root genesis
          cfg   \* [xlim, rateN, rateD, evm, ddos, reward, conv, rr, bank]
vars == <<mb, rb, cfg>>

MIds == 1..Len(mb)
RIds == 1..Len(rb)
Users == {1, 2, 3}
Miner == 4
RootCoin == 5
CInvalid == 11      \* code: invalid instruction, burns all gas
CRevert == 12       \* code: revert, 6 gas
CAccept == 13       \* code: stop
CClear == 14        \* code: clear one storage slot
Contracts == {CInvalid, CRevert, CAccept, CClear}
Bank == 15          \* the contract that changes another token into the default one for gas
Zero == 0           \* where the part of such gas that is not given back goes
Accounts == Users \cup {Miner, RootCoin, Bank, Zero} \cup Contracts
Created(s, f, n) == 100 + (s * 10 + f) * 100 + n   \* account created by user f's transaction n of shard s
XCost == 9000
Funds == 20000000
Toks == 600000

Genesis == [bal |-> [a \in Accounts |-> IF a \in Users THEN Funds ELSE IF a = Bank THEN cfg.bank ELSE 0],
            tok |-> [a \in Accounts |-> IF a \in Users THEN Toks ELSE 0],
            nonce |-> [u \in Users |-> 0], slot |-> 1]

RECURSIVE RAnc(_)
RAnc(i) == IF i = 0 THEN {} ELSE {i} \cup RAnc(rb[i].p)
RECURSIVE MAnc(_)
MAnc(m) == IF m = 0 THEN {0} ELSE {m} \cup MAnc(mb[m].p)

\* ---------------------------------------------------------------- deposits
\* what block m of another shard sends to shard s
Sends(m, s) == SelectSeq(mb[m].out, LAMBDA d : d.ts = s)
RECURSIVE OfList(_, _, _, _)
OfList(i, l, k, s) ==
    IF k > Len(l) THEN <<>> ELSE
    LET d == Sends(l[k], s)
    IN  (IF mb[l[k]].s = s \/ rb[mb[l[k]].r].h = 0 THEN <<>> ELSE [j \in 1..Len(d) |-> [d[j] EXCEPT !.rh = rb[i].h, !.mi = k, !.di = j - 1]])
        \o OfList(i, l, k + 1, s)
Reward(i, s) == [rh |-> rb[i].h, mi |-> 0, di |-> 1, kind |-> "root", f |-> RootCoin, to |-> RootCoin, ts |-> s,
                 v |-> IF rb[i].cs = s THEN rb[i].amt ELSE 0, tk |-> 1, gas |-> 0, price |-> 0, rr |-> 100, id |-> 0]
RECURSIVE Stream(_, _)
Stream(i, s) == (IF rb[i].p = 0 THEN <<>> ELSE Stream(rb[i].p, s))
                \o <<Reward(i, s)>> \o OfList(i, rb[i].l, 1, s)

\* ---------------------------------------------------------------- execution
Frac(x) == (x * cfg.rateN) \div cfg.rateD
Add(f, a, x) == IF a \in DOMAIN f THEN [f EXCEPT ![a] = @ + x] ELSE f @@ (a :> x)
Credit(st, a, tk, x) == IF tk = 1 THEN [st EXCEPT !.bal = Add(@, a, x)] ELSE [st EXCEPT !.tok = Add(@, a, x)]
Get(f, a) == IF a \in DOMAIN f THEN f[a] ELSE 0
Debit(st, a, tk, x) == IF tk = 1 THEN [st EXCEPT !.bal[a] = @ - x] ELSE [st EXCEPT !.tok[a] = @ - x]
Min(a, b) == IF a < b THEN a ELSE b

\* running target `to` with g gas: [ok, used, clear]
Run(st, to, kind, g) ==
    CASE kind = "create" -> [ok |-> TRUE, used |-> 0, clear |-> FALSE]
      [] kind = "badcreate" -> [ok |-> FALSE, used |-> g, clear |-> FALSE]
      [] to = CInvalid -> [ok |-> FALSE, used |-> g, clear |-> FALSE]
      [] to = CRevert -> [ok |-> FALSE, used |-> Min(g, 6), clear |-> FALSE]
      [] to = CClear -> IF g < 5006 THEN [ok |-> FALSE, used |-> g, clear |-> FALSE]
                        ELSE [ok |-> TRUE, used |-> 5006, clear |-> st.slot = 1]
      [] OTHER -> [ok |-> TRUE, used |-> 0, clear |-> FALSE]

\* pay for `used` gas bought at `price` by a (already taken from a): miner's share, burnt share
Fee(st, used, price) ==
    [st EXCEPT !.bal = Add(@, st.miner, Frac(used * price)), !.fee = @ + Frac(used * price),
               !.burn = @ + (used * price - Frac(used * price))]

\* what is left of bought gas goes back to a; gas bought with another token may be given back in part only
Back(st, a, x, rr) == Credit(Credit(st, a, 1, (x * rr) \div 100), Zero, 1, x - (x * rr) \div 100)

Evm(h) == h >= cfg.evm

\* one deposit arrives in a block of height h
Receive(st, d, h) ==
    LET start == IF d.rh >= cfg.ddos THEN (IF d.kind = "root" THEN 0 ELSE XCost) ELSE (IF d.price = 0 THEN 0 ELSE XCost)
        got == [st EXCEPT !.recv = Append(@, d), !.in = IF d.tk = 1 THEN @ + d.v + (IF d.kind = "root" THEN 0 ELSE (XCost + d.gas) * d.price) ELSE @ + (XCost + d.gas) * d.price,
                          !.intok = IF d.tk = 2 THEN @ + d.v ELSE @]
    IN  IF ~Evm(h)
        THEN LET a == Credit(got, d.to, d.tk, d.v)
                 b == IF d.kind = "root" THEN a ELSE Fee(a, XCost, d.price)
             IN  [b EXCEPT !.gas = @ + start, !.burn = @ + d.gas * d.price]
        ELSE LET r == Run(got, d.to, d.kind, d.gas)
                 moved == Credit(got, IF r.ok THEN d.to ELSE d.f, d.tk, d.v)
                 raw == start + r.used
                 back == IF r.ok /\ r.clear THEN Min(raw \div 2, 15000) ELSE 0
                 used == raw - back
                 left == start + d.gas - used
                 ref == [Back(moved, d.f, left * d.price, d.rr) EXCEPT !.slot = IF r.ok /\ r.clear THEN 0 ELSE @]
             IN  [Fee(ref, used, d.price) EXCEPT !.gas = @ + used, !.xrc = Append(@, r.ok)]

RECURSIVE ReceiveAll(_, _, _, _)
ReceiveAll(st, s, k, h) ==          \* s: stream, k: next position; result also says where it stopped
    IF k > Len(s) THEN [st |-> st, n |-> Len(s), eof |-> TRUE]
    ELSE LET t == Receive(st, s[k], h)
         IN  IF t.gas >= cfg.xlim THEN [st |-> t, n |-> k, eof |-> FALSE] ELSE ReceiveAll(t, s, k + 1, h)

\* ---------------------------------------------------------------- transactions
DataGas(kind) == CASE kind = "create" -> 4 [] kind = "badcreate" -> 68 [] OTHER -> 0
IsCreate(kind) == kind \in {"create", "badcreate"}
Intrinsic(t, s) == (IF IsCreate(t.kind) THEN 53000 ELSE 21000) + DataGas(t.kind) + (IF t.ts # s THEN XCost ELSE 0)
\* price of gas in the default token, and what it was bought with
Price(t) == IF t.gt = 1 THEN t.price ELSE t.price * cfg.conv
Rate(t) == IF t.gt = 1 THEN 100 ELSE cfg.rr
Cost(t, tk) == (IF t.tk = tk THEN t.v ELSE 0) + (IF t.gt = tk THEN t.gas * t.price ELSE 0)
CanPay(st, t) == /\ st.bal[t.f] >= Cost(t, 1) /\ st.tok[t.f] >= Cost(t, 2)
                 /\ (t.tk = 2 \/ t.gt = 2) => st.tok[t.f] > 0
                 /\ t.gt = 2 => Price(t) > 0 /\ st.bal[Bank] >= t.gas * Price(t)
Buy(st, t) == IF t.gt = 1 THEN Debit(st, t.f, 1, t.gas * t.price)
              ELSE Debit(Credit(Debit(st, t.f, 2, t.gas * t.price), Bank, 2, t.gas * t.price), Bank, 1, t.gas * Price(t))
Executable(st, t, s, h, r) ==
    /\ t.ts # s => rb[r].h > 0      \* the other shard exists at the block's root block
    /\ t.n = st.nonce[t.f] /\ t.gas >= Intrinsic(t, s) /\ CanPay(st, t) /\ st.gas + t.gas <= 2 * cfg.xlim /\ t.gas <= st.pool
    /\ t.ts # s => t.gas <= cfg.xlim
    /\ ~Evm(h) => ~IsCreate(t.kind)

Apply(st, t, s, h) ==
    LET i == Intrinsic(t, s)
        nn == st.nonce[t.f]
        paid == [Buy(st, t) EXCEPT !.nonce[t.f] = @ + 1]
    IN  IF t.ts # s
        THEN LET res == IF Evm(h) THEN t.gas - i ELSE 0
                 tgt == IF IsCreate(t.kind) THEN Created(s, t.f, nn) ELSE t.to
                 dep == [rh |-> 0, mi |-> 0, di |-> 0, kind |-> t.kind, f |-> t.f, to |-> tgt, ts |-> t.ts, v |-> t.v, tk |-> t.tk,
                         gas |-> res, price |-> Price(t), rr |-> Rate(t), id |-> t.id]
                 a == Debit(paid, t.f, t.tk, t.v)
                 b == Back(a, t.f, (t.gas - i - res) * Price(t), Rate(t))
                 c == Fee(b, i - XCost, Price(t))
             IN  [c EXCEPT !.out = Append(@, dep), !.rc = Append(@, TRUE),
                           !.sent = @ + (XCost + res) * Price(t) + (IF t.tk = 1 THEN t.v ELSE 0),
                           !.senttok = @ + (IF t.tk = 2 THEN t.v ELSE 0),
                           !.gas = @ + (IF Evm(h) THEN i - XCost ELSE i), !.pool = @ - t.gas]
        ELSE LET r == Run(paid, t.to, t.kind, t.gas - i)
                 tgt == IF IsCreate(t.kind) THEN Created(s, t.f, nn) ELSE t.to
                 moved == IF r.ok THEN Credit(Debit(paid, t.f, t.tk, t.v), tgt, t.tk, t.v) ELSE paid
                 raw == i + r.used
                 back == IF r.ok /\ r.clear THEN Min(raw \div 2, 15000) ELSE 0
                 used == raw - back
                 ref == [Back(moved, t.f, (t.gas - used) * Price(t), Rate(t)) EXCEPT !.slot = IF r.ok /\ r.clear THEN 0 ELSE @]
             IN  [Fee(ref, used, Price(t)) EXCEPT !.gas = @ + used, !.pool = @ - used, !.rc = Append(@, r.ok)]

\* ---------------------------------------------------------------- blocks
H(m) == mb[m].h
\* blocks 1, 2, 3 are the shards' first blocks
GenesisBlock(s) == [s |-> s, p |-> 0, r |-> 1, h |-> 0, miner |-> Miner, n |-> 0, cur |-> <<0, 0, 0>>, bal |-> Genesis.bal, tok |-> Genesis.tok,
                    nonce |-> Genesis.nonce, slot |-> 1, gas |-> 0, xgas |-> 0, cb |-> 0, burn |-> 0, out |-> <<>>, rc |-> <<>>, xrc |-> <<>>,
                    recv |-> <<>>, in |-> 0, intok |-> 0, sent |-> 0, senttok |-> 0]
StateOf(m) == [bal |-> mb[m].bal, tok |-> mb[m].tok, nonce |-> mb[m].nonce, slot |-> mb[m].slot]
Taken(m) == mb[m].n
Open(m, miner) == LET g == StateOf(m) IN
    [bal |-> g.bal, tok |-> g.tok, nonce |-> g.nonce, slot |-> g.slot, miner |-> miner, pool |-> 2 * cfg.xlim, gas |-> 0, fee |-> 0, burn |-> 0,
     out |-> <<>>, rc |-> <<>>, xrc |-> <<>>, recv |-> <<>>, in |-> 0, intok |-> 0, sent |-> 0, senttok |-> 0]
\* state in which the transactions of a block on (s, p, r) run
Begin(s, p, r, miner) == ReceiveAll(Open(p, miner), Stream(r, s), Taken(p) + 1, H(p) + 1)
Close(s, p, r, miner, b, st) ==     \* b: result of Begin, st: state after the transactions
    [s |-> s, p |-> p, r |-> r, h |-> H(p) + 1, miner |-> miner, n |-> b.n,
     cur |-> IF b.eof THEN <<rb[r].h + 1, 0, 0>> ELSE LET d == Stream(r, s)[b.n] IN <<d.rh, d.mi, d.di>>,
     bal |-> Add(st.bal, miner, Frac(cfg.reward)), tok |-> st.tok, nonce |-> st.nonce, slot |-> st.slot,
     gas |-> st.gas, xgas |-> b.st.gas, cb |-> st.fee + Frac(cfg.reward), burn |-> st.burn,
     out |-> st.out, rc |-> st.rc, xrc |-> st.xrc, recv |-> st.recv, in |-> st.in, intok |-> st.intok, sent |-> st.sent, senttok |-> st.senttok]

\* the header of shard s last confirmed by root block r
RECURSIVE LastOf(_, _, _)
LastOf(l, k, s) == IF k = 0 THEN 0 ELSE IF mb[l[k]].s = s THEN l[k] ELSE LastOf(l, k - 1, s)
RECURSIVE Conf(_, _)
Conf(r, s) == IF r = 0 THEN 0 ELSE LET m == LastOf(rb[r].l, Len(rb[r].l), s) IN IF m # 0 THEN m ELSE Conf(rb[r].p, s)
CanBuild(p, r) == LET s == mb[p].s IN /\ mb[p].r \in RAnc(r) /\ Conf(r, s) \in MAnc(p)
NewRoot(p, l, cs, amt) == rb' = Append(rb, [p |-> p, h |-> rb[p].h + 1, l |-> l, cs |-> cs, amt |-> amt])

\* ---------------------------------------------------------------- properties
RECURSIVE Received(_)
Received(m) == IF m = 0 THEN <<>> ELSE Received(mb[m].p) \o mb[m].recv
\* exactly once, in order, nothing skipped, only from confirmed blocks of the own root chain
Made == {m \in MIds : mb[m].p # 0}
X01Inv == \A m \in Made :
    LET all == Received(m) str == Stream(mb[m].r, mb[m].s)
    IN  /\ Len(all) = mb[m].n /\ mb[m].n <= Len(str) /\ all = SubSeq(str, 1, mb[m].n)
        /\ \A i \in 1..Len(all) : \A j \in 1..Len(all) : i # j => <<all[i].rh, all[i].mi, all[i].di>> # <<all[j].rh, all[j].mi, all[j].di>>
        \* progress: a block takes at least one deposit if one is waiting
        /\ (Taken(mb[m].p) < Len(str) => Len(mb[m].recv) > 0)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET a == CHOOSE x \in S : TRUE IN f[a] + Sum(f, S \ {a})
Total(f) == Sum(f, DOMAIN f)
L01Inv == \A m \in Made :
    LET g == StateOf(mb[m].p)
    IN  /\ Total(mb[m].bal) + mb[m].sent + mb[m].burn = Total(g.bal) + mb[m].in + Frac(cfg.reward)
        /\ Total(mb[m].tok) + mb[m].senttok = Total(g.tok) + mb[m].intok
        /\ \A a \in DOMAIN mb[m].bal : mb[m].bal[a] >= 0
        /\ \A a \in DOMAIN mb[m].tok : mb[m].tok[a] >= 0
        /\ Sum(mb[m].nonce, Users) = Sum(g.nonce, Users) + Len(mb[m].rc)
=============================================================================

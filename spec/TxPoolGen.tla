----------------------------- MODULE TxPoolGen -----------------------------
(* Random behaviours of TxPool as operation lists with what the pool must     *)
(* hold, answer and offer for mining after each.                              *)
EXTENDS TxPool, Json
CONSTANTS MaxTx, MaxOps

VARIABLES hist, ph, left,
          goal \* 0, or the last block of a batch being delivered
gvars == <<pvars, hist, ph, left, goal>>

Pick(S) == RandomElement(S)
Rec(r) == hist' = Append(hist, r)
GInit == PInit /\ hist = <<>> /\ ph = "tx" /\ left = MaxOps /\ goal = 0

Prices == {2, 10, 10, 11, 12, 13, 20}
MakeTx ==
    /\ ph = "tx" /\ Len(tr) < MaxTx
    /\ \E a \in {Pick(Accts)}, w \in {Pick(1..3)}, n0 \in {Pick(0..4)}, n1 \in {Pick(0..4)}, p \in {Pick(Prices)}, z \in {Pick(1..6)},
          g \in {Pick({21000, 21000, 60000})}, k \in {Pick(0..2)}, v0 \in {Pick({0, 100, 700000, 1500000})}, v1 \in {Pick({0, 1, 600, 1000})} :
       LET n == IF w = 1 /\ n1 < n0 THEN n1 ELSE n0
           pr == IF p = 2 /\ z > 1 THEN 10 ELSE p
           x == [a |-> a, n |-> n, pr |-> pr, g |-> g, v |-> IF k = 0 THEN v1 ELSE v0, tok |-> IF k = 0 THEN 1 ELSE 0]
       IN /\ tr' = Append(tr, x)
          /\ Rec([op |-> "T", id |-> Len(tr) + 1, a |-> a, n |-> n, pr |-> pr, g |-> g, v |-> x.v, tok |-> x.tok])
    /\ UNCHANGED <<vars, pool, ph, left, goal>>
GoMake == ph = "tx" /\ Len(tr) = MaxTx /\ ph' = "make" /\ UNCHANGED <<pvars, hist, left, goal>>

\* a random sequence of at most k transactions that fits after S
RECURSIVE Some(_, _, _)
Some(S, k, s) ==
    LET ok == {t \in 1..Len(tr) : t \notin S /\ Fits(S, <<t>>)}
    IN IF k = 0 \/ ok = {} THEN s
       ELSE LET t == Pick(ok) IN Some(S \cup {t}, k - 1, Append(s, t))

Pairs == {<<p, r>> \in MIds \X RIds : ValidMinor(p, r)}
MaxH == CHOOSE h \in {mb[i].h : i \in MIds} : \A i \in MIds : mb[i].h <= h
DeepPairs == {x \in Pairs : mb[x[1]].h >= MaxH - 1}
MakeMinor ==
    /\ ph = "make" /\ Len(mb) < MaxM + 1
    /\ \E w \in {Pick(1..4)}, k \in {Pick(0..3)} :
       \E c \in {IF w = 1 \/ DeepPairs = {} THEN Pick(Pairs) ELSE Pick(DeepPairs)} :
       \E s \in {Some(CTx(c[1]), k, <<>>)} :
          /\ MakeBlock(c[1], c[2], s)
          /\ Rec([op |-> "M", id |-> Len(mb) + 1, p |-> c[1], r |-> c[2], tx |-> s])
    /\ UNCHANGED <<ph, left, goal>>
Roots == {<<p, e>> \in RIds \X ({0} \cup MIds) : ValidRoot(p, e)}
MakeRoot ==
    /\ ph = "make" /\ Len(rb) < MaxR + 1
    /\ \E c \in {Pick(Roots)}, d \in {Pick(1..MaxD)} :
          /\ NewRoot(c[1], d, c[2])
          /\ Rec([op |-> "R", id |-> Len(rb) + 1, p |-> c[1], d |-> d,
                  l |-> IF c[2] = rb[c[1]].conf THEN <<>> ELSE Seg(c[1], c[2])])
    /\ UNCHANGED <<tr, pool, ph, left, goal>>
Start == /\ ph = "make" /\ Len(mb) = MaxM + 1 /\ Len(rb) = MaxR + 1
         /\ ph' = "run" /\ UNCHANGED <<pvars, hist, left, goal>>

RECURSIVE Flat(_, _)
Flat(n, f) == IF n = 0 THEN <<>> ELSE Append(Flat(n - 1, f), f[n])
View(P, C) == [pool |-> P, exec |-> [i \in 1..2 |-> Exec(P, C, i)], mined |-> [i \in 1..2 |-> Mined(P, C, i)],
               next |-> [i \in 1..2 |-> Cardinality(OwnTx(C, i)) + Len(Exec(P, C, i))]]

Useful == {t \in 1..Len(tr) : t \notin pool /\ Takes(CTx(tip), t)}
OneTx == IF Useful # {} /\ Pick(1..4) > 1 THEN Pick(Useful) ELSE Pick(1..Len(tr))
Add(n) ==
    /\ ph = "run" /\ left > 0
    /\ \E s \in {IF n = 1 THEN <<OneTx>> ELSE IF n = 2 THEN <<OneTx, OneTx>> ELSE <<OneTx, OneTx, OneTx, OneTx>>}, loc \in {Pick({TRUE, TRUE, FALSE})} :
          /\ Submit(s)
          /\ Rec([op |-> "add", s |-> s, loc |-> loc, res |-> AddAll(pool, CTx(tip), s).r, view |-> View(pool', CTx(tip))])
    /\ left' = left - 1 /\ UNCHANGED <<ph, goal>>
OkM == {m \in MIds : AcceptableM(m)}
OkR == {r \in RIds : AcceptableR(r)}
RunMinor ==
    /\ ph = "run" /\ left > 0 /\ OkM # {}
    /\ \E m \in {Pick(OkM)} :
          /\ TakeMinor(m)
          /\ Rec([op |-> "dm", id |-> m, tip |-> tip', view |-> View(pool', CTx(tip'))])
    /\ left' = left - 1 /\ UNCHANGED <<ph, goal>>
\* a run of blocks handed over in one call
Known(m) == \A x \in MChain(m) : mb[x].r \in kR
Deep == {m \in MIds \ kM : Known(m) /\ mb[m].p \notin kM}
Next1(m) == CHOOSE x \in MChain(m) \ kM : mb[x].p \in kM
Path == 
    /\ ph = "run" /\ left > 0
    /\ \E g \in {IF goal # 0 THEN goal ELSE Pick(Deep)} :
       \E m \in {Next1(g)} :
          /\ TakeMinor(m)
          /\ Rec([op |-> "dm", id |-> m, tip |-> tip', more |-> m # g, view |-> View(pool', CTx(tip'))])
          /\ goal' = IF m = g THEN 0 ELSE g
    /\ left' = IF goal' = 0 THEN left - 1 ELSE left
    /\ UNCHANGED ph
RunRoot ==
    /\ ph = "run" /\ left > 0 /\ OkR # {}
    /\ \E r \in {Pick(OkR)} :
          /\ TakeRoot(r)
          /\ Rec([op |-> "dr", id |-> r, tip |-> tip', view |-> View(pool', CTx(tip'))])
    /\ left' = left - 1 /\ UNCHANGED <<ph, goal>>
\* submissions racing with a shard block
Race ==
    /\ ph = "run" /\ left > 0 /\ OkM # {}
    /\ \E m \in {Pick(OkM)}, T \in {{OneTx, OneTx, OneTx}} :
          /\ DeliverMinor(m)
          /\ \E outs \in {Outcomes(pool, CTx(tip), CTx(tip'), tip' = tip, T)} :
             \E o \in {Pick(outs)} :
             /\ pool' = o.p
             /\ Rec([op |-> "race", id |-> m, s |-> T, tip |-> tip', outs |-> {[ok |-> x.ok, view |-> View(x.p, CTx(tip'))] : x \in outs}])
          /\ UNCHANGED tr
    /\ left' = 0 /\ UNCHANGED <<ph, goal>>  \* the history ends here: the code takes one of the outcomes
Finish == /\ ph = "run" /\ left = 0
          /\ PrintT(<<"TRACE", ToJson(hist)>>)
          /\ ph' = "done" /\ UNCHANGED <<pvars, hist, left, goal>>
Skip == /\ ph = "run" /\ left > 0 /\ OkM = {} /\ OkR = {} /\ left' = left - 1 /\ UNCHANGED <<pvars, hist, ph, goal>>

GNext == IF goal # 0 THEN Path ELSE
         MakeTx \/ GoMake \/ MakeMinor \/ MakeRoot \/ Start \/ (\E n \in 1..3 : Add(n)) \/ RunMinor \/ (Deep # {} /\ Path) \/ RunRoot
         \/ (left < MaxOps - 12 /\ Race) \/ Skip \/ Finish
GSpec == GInit /\ [][GNext]_gvars
=============================================================================

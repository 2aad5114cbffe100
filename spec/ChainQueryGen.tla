--------------------------- MODULE ChainQueryGen ---------------------------
(* Random histories of a shard with questions asked along the way and their   *)
(* answers.                                                                   *)
EXTENDS ChainQuery, ShardChainGen

QInit == GInit /\ in = <<[coin |-> 0, xs |-> <<>>]>>

RECURSIVE TopicList(_)
TopicList(n) == IF n = 0 THEN <<>> ELSE <<Pick(1..2)>> \o TopicList(n - 1)
MkLogs(n, a, b) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<a>> ELSE <<a, b>>
\* far: transfers to another shard are possible; z: what it is; o: whether the contract reverts
TxOf(far, z, f, to, c, k, la, lb, n, o) ==
    CASE z = 1 -> [f |-> f, to |-> 0, far |-> FALSE, tok |-> 1, logs |-> <<>>, ok |-> TRUE]
      [] z = 2 /\ far -> [f |-> f, to |-> to, far |-> TRUE, tok |-> k, logs |-> <<>>, ok |-> TRUE]
      [] z = 3 /\ far -> [f |-> f, to |-> c, far |-> TRUE, tok |-> 1, logs |-> MkLogs(n, la, lb), ok |-> TRUE]
      [] z \in 2..4 -> [f |-> f, to |-> to, far |-> FALSE, tok |-> k, logs |-> <<>>, ok |-> TRUE]
      [] OTHER -> [f |-> f, to |-> c, far |-> FALSE, tok |-> 1, logs |-> MkLogs(n, la, lb), ok |-> o > 1]
DepOf(id, to, k, la, lb, n, o) ==
    IF to < 3 THEN [id |-> id, to |-> to, tok |-> k, logs |-> <<>>, ok |-> TRUE]
    ELSE [id |-> id, to |-> to, tok |-> 1, logs |-> MkLogs(n, la, lb), ok |-> o > 1]

QMinor ==
    /\ ph = "make" /\ Len(mb) < MaxM + 1
    /\ \E w \in {Pick(1..4)}, nt \in {Pick(0..3)} :
       \E c \in {IF w = 1 \/ DeepPairs = {} THEN Pick(Pairs) ELSE Pick(DeepPairs)} :
       \E t1 \in {TxOf(rb[c[2]].h > 0, Pick(1..10), Pick(1..2), Pick(1..2), Pick(3..4), Pick(1..2), TopicList(Pick(0..3)), TopicList(Pick(0..2)), Pick(0..2), Pick(1..4))},
          t2 \in {TxOf(rb[c[2]].h > 0, Pick(1..10), Pick(1..2), Pick(1..2), Pick(3..4), Pick(1..2), TopicList(Pick(0..3)), TopicList(Pick(0..2)), Pick(0..2), Pick(1..4))},
          t3 \in {TxOf(rb[c[2]].h > 0, Pick(1..10), Pick(1..2), Pick(1..2), Pick(3..4), Pick(1..2), TopicList(Pick(0..3)), TopicList(Pick(0..2)), Pick(0..2), Pick(1..4))} :
       \E tx \in {SubSeq(<<t1, t2, t3>>, 1, nt)} :
          /\ NewMinor(c[1], c[2], tx)
          /\ Rec([op |-> "M", id |-> Len(mb) + 1, p |-> c[1], r |-> c[2], tx |-> tx])
    /\ UNCHANGED <<ph, in>>
QRoot ==
    /\ ph = "make" /\ Len(rb) < MaxR + 1
    /\ \E w \in {Pick(1..3)} :
       \E c \in {IF w = 1 \/ DeepRoots = {} THEN Pick(Roots) ELSE Pick(DeepRoots)} :
       \E d \in {Pick(1..MaxD)}, co \in {Pick({0, 1, 2})}, nx \in {Pick(0..2)},
          d1 \in {DepOf(Len(rb) * 10 + 1, Pick(1..4), Pick(1..2), TopicList(Pick(0..3)), TopicList(Pick(0..2)), Pick(0..2), Pick(1..4))},
          d2 \in {DepOf(Len(rb) * 10 + 2, Pick(1..4), Pick(1..2), TopicList(Pick(0..3)), TopicList(Pick(0..2)), Pick(0..2), Pick(1..4))} :
       \E xs \in {IF rb[c[1]].h = 0 THEN <<>> ELSE SubSeq(<<d1, d2>>, 1, nx)} :
          /\ NewRoot(c[1], d, c[2])
          /\ in' = Append(in, [coin |-> co, xs |-> xs])
          /\ Rec([op |-> "R", id |-> Len(rb) + 1, p |-> c[1], d |-> d, coin |-> co, xs |-> xs,
                  l |-> IF c[2] = rb[c[1]].conf THEN <<>> ELSE Seg(c[1], c[2])])
    /\ UNCHANGED ph

Ans(t) == LET f == Concat(Feed(t), 1) IN [i \in 1..Len(f) |-> <<f[i].m, f[i].i>>]
QDm ==
    /\ ph = "run" /\ ~AllKnown
    /\ \E w \in {Pick(1..8)} :
       \E m \in {IF w > 1 /\ OkM # {} THEN Pick(OkM) ELSE Pick(MIds \ {1})} :
          /\ DeliverMinor(m)
          /\ Rec([op |-> "dm", id |-> m, ok |-> AcceptableM(m), dup |-> m \in kM, tip |-> tip', feed |-> Ans(tip')])
    /\ ph' = "ask" /\ UNCHANGED in
QDr ==
    /\ ph = "run" /\ ~AllKnown
    /\ \E w \in {Pick(1..6)} :
       \E r \in {IF w > 1 /\ OkR # {} THEN Pick(OkR) ELSE Pick(RIds \ {1})} :
          /\ DeliverRoot(r)
          /\ Rec([op |-> "dr", id |-> r, ok |-> AcceptableR(r), dup |-> r \in kR, tip |-> tip', feed |-> Ans(tip')])
    /\ ph' = "ask" /\ UNCHANGED in

AskLogs ==
    \E a \in {Pick(0..mb[tip].h)}, z \in {Pick(1..8)}, k \in {Pick(0..2)},
       s1 \in {Pick(SUBSET {1, 2, 7})}, s2 \in {Pick(SUBSET {1, 2})}, ad \in {Pick({{}, {}, {3}, {4}, {3, 4}, {1, 4}, {1}})} :
    \E b \in {IF z = 1 THEN mb[tip].h + 1 ELSE IF z = 2 /\ a > 0 THEN a - 1 ELSE IF z < 6 THEN mb[tip].h ELSE Pick(a..mb[tip].h)} :
    \E tops \in {SubSeq(<<s1, s2>>, 1, k)} :
       Rec([op |-> "logs", a |-> a, b |-> b, adrs |-> ad, tops |-> tops, want |-> Answer(tip, a, b, ad, tops)])
AskPend ==
    \E a \in {Pick(0..mb[tip].h)}, ad \in {Pick({{}, {3}, {4}})} :
       Rec([op |-> "pend", a |-> a, b |-> mb[tip].h, adrs |-> ad, tops |-> <<>>, want |-> Answer(tip, a, mb[tip].h, ad, <<>>)])
AskBlock ==
    \E m \in {Pick(kM)}, ad \in {Pick({{}, {}, {3}, {4}})} :
       Rec([op |-> "logsb", a |-> 0, b |-> 0, m |-> m, adrs |-> ad, tops |-> <<>>, want |-> BlockAnswer(tip, m, ad, <<>>)])
AskHist ==
    \E a \in {Pick({0, 0, 1, 2, 3, 4})}, n \in {Pick({1, 2, 3, 10, 20})}, z \in {Pick(1..3)}, tk \in {Pick(1..2)} :
    \E tok \in {IF a # 0 /\ z = 1 THEN tk ELSE 0} :
       Rec([op |-> "hist", a |-> a, tok |-> tok, n |-> n, want |-> History(tip, a, tok)])
AskReceipt ==
    \E m \in {Pick(MChain(tip))} : \E e \in {IF Len(Entries(m)) = 0 THEN 0 ELSE Pick(1..Len(Entries(m)))} :
       Rec(IF e = 0 \/ Entries(m)[e].root THEN [op |-> "none"] ELSE
           LET x == Entries(m)[e] n == IF x.k = "tx" THEN x.x ELSE Len(mb[m].tx) + x.x
               ls == SelectSeq(BlockLogs(m), LAMBDA l : l.x = n)
           IN  [op |-> "rcpt", m |-> m, k |-> x.k, x |-> x.x, e |-> x.id, n |-> n,
                ok |-> IF x.k = "tx" THEN mb[m].tx[x.x + 1].ok \/ mb[m].tx[x.x + 1].far ELSE Deposits(m)[x.x + 1].d.ok,
                want |-> ls])
Ask == /\ ph = "ask"
       /\ \E z \in {Pick(1..8)}, y \in {Pick(1..8)} : CASE z < 4 -> (CASE y = 1 -> AskPend [] y = 2 -> AskBlock [] OTHER -> AskLogs) [] z < 7 -> AskHist [] OTHER -> AskReceipt
       /\ \E z \in {Pick(1..4)} : ph' = IF z = 1 THEN "ask" ELSE "run"
       /\ UNCHANGED <<vars, in>>
QFinish == Finish /\ UNCHANGED in
QStart == Start /\ UNCHANGED in
QNext == QMinor \/ QRoot \/ QStart \/ QDm \/ QDr \/ Ask \/ QFinish
QSpec == QInit /\ [][QNext]_<<gvars, in>>
=============================================================================

----------------------------- MODULE RootChain -----------------------------
(* The root chain of a cluster: the tree of root blocks with the lists of     *)
(* shard headers they confirm, the set of shard headers the cluster has       *)
(* validated, and the head.  One action per public call of                    *)
(* core.RootBlockChain: AddValidatedMinorBlockHeader and InsertChain.         *)
(* New* actions produce arbitrary root blocks, valid or not.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxM, MaxR, MaxD, MaxPer,
          Shards,     \* shard ids, in the protocol's order
          InitH,      \* InitH[s]: the root height at which shard s starts
          MaxList     \* longest list tried

VARIABLES mb,   \* shard headers [s, p, h, r, t, q, x]: shard, parent (0: none), height, root block, time, reward in two tokens
          rb,   \* root blocks [p, h, td, t, l, mut, aq, ax]
          vM,   \* validated shard headers
          acc,  \* accepted root blocks, in order
          head

vars == <<mb, rb, vM, acc, head>>

MIds == 1..Len(mb)
RIds == 1..Len(rb)
Rng(s) == {s[i] : i \in 1..Len(s)}
kR == Rng(acc)

RECURSIVE RChain(_)
RChain(i) == IF i = 0 THEN {} ELSE {i} \cup RChain(rb[i].p)
At(t, h) == LET S == {x \in RChain(t) : rb[x].h = h} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE

OfShard(l, s) == SelectSeq(l, LAMBDA m : mb[m].s = s)
RECURSIVE Conf(_, _)    \* last header of shard s confirmed by root block r's ancestry
Conf(r, s) == IF r = 0 THEN 0
              ELSE LET q == OfShard(rb[r].l, s) IN IF q # <<>> THEN q[Len(q)] ELSE Conf(rb[r].p, s)
Confs(r) == [s \in Shards |-> Conf(r, s)]

-----------------------------------------------------------------------------
\* Rewards: the root's own amount halves every two heights; half of each shard header's reward is added.
Base == 40
RECURSIVE SumQ(_)
SumQ(l) == IF l = <<>> THEN 0 ELSE mb[l[1]].q + SumQ(Tail(l))
RECURSIVE SumX(_)
SumX(l) == IF l = <<>> THEN 0 ELSE mb[l[1]].x + SumX(Tail(l))
RewardQ(h, l) == (Base \div (2 ^ (h \div 2))) + (SumQ(l) \div 2)
RewardX(l) == SumX(l) \div 2

\* The rules for root block number i (i need not have been delivered).
HeaderOK(i) == rb[i].mut = "none"
ListOK(i, valid) ==
    LET l == rb[i].l  n == Len(l)
    IN /\ \A k \in 1..n : /\ l[k] \in valid
                          /\ mb[l[k]].t <= rb[i].t
                          /\ mb[l[k]].r \in RChain(rb[i].p)
                          /\ InitH[mb[l[k]].s] < rb[i].h
       /\ \A k \in 2..n : mb[l[k-1]].s <= mb[l[k]].s
       /\ \A k \in 2..n : mb[l[k-1]].s = mb[l[k]].s => mb[l[k]].p = l[k-1]
       /\ \A s \in Shards : LET q == OfShard(l, s) IN
              q # <<>> => /\ mb[q[1]].p = Conf(rb[i].p, s)
                          /\ Len(q) <= MaxPer
Valid(i, valid) == HeaderOK(i) /\ ListOK(i, valid)

Init == /\ mb = <<>>
        /\ rb = <<[p |-> 0, h |-> 0, td |-> 0, t |-> 0, l |-> <<>>, mut |-> "none", aq |-> 0, ax |-> 0]>>
        /\ vM = {} /\ acc = <<1>> /\ head = 1

NewMinor(s, p, r, dt, q, x) ==
    /\ Len(mb) < MaxM
    /\ IF p = 0 THEN TRUE ELSE mb[p].s = s
    /\ mb' = Append(mb, [s |-> s, p |-> p, h |-> IF p = 0 THEN 0 ELSE mb[p].h + 1, r |-> r,
                         t |-> (IF p = 0 THEN 0 ELSE mb[p].t) + dt, q |-> q, x |-> x])
    /\ UNCHANGED <<rb, vM, acc, head>>

NewRoot(p, d, l, mut) ==
    /\ Len(rb) < MaxR + 1
    /\ rb' = Append(rb, [p |-> p, h |-> rb[p].h + 1, td |-> rb[p].td + d, t |-> rb[p].t + 3, l |-> l, mut |-> mut,
                         aq |-> RewardQ(rb[p].h + 1, l), ax |-> RewardX(l)])
    /\ UNCHANGED <<mb, vM, acc, head>>

-----------------------------------------------------------------------------
Validated(m) == vM' = vM \cup {m} /\ UNCHANGED <<mb, rb, acc, head>>

Better(a, b) == rb[a].td > rb[b].td \/ (rb[a].td = rb[b].td /\ rb[a].h < rb[b].h)

Acceptable(i) == i \notin kR /\ rb[i].p \in kR /\ Valid(i, vM)

\* a batch is a path of root blocks, parents first; it stops at the first unacceptable one
RECURSIVE Taken(_, _)
Taken(b, got) == IF b = <<>> THEN <<>>
                 ELSE LET i == b[1]
                      IN IF i \in got THEN Taken(Tail(b), got)
                         ELSE IF rb[i].p \in got /\ Valid(i, vM) THEN <<i>> \o Taken(Tail(b), got \cup {i})
                         ELSE <<>>
RECURSIVE Best(_, _)
Best(h0, s) == IF s = <<>> THEN h0 ELSE Best(IF Better(s[1], h0) THEN s[1] ELSE h0, Tail(s))

Deliver(b) ==
    LET t == Taken(b, kR)
    IN /\ acc' = acc \o t
       /\ head' = Best(head, t)
       /\ UNCHANGED <<mb, rb, vM>>

Lists == UNION {[1..n -> MIds] : n \in 0..MaxList}
Next == \/ \E s \in Shards, p \in {0} \cup MIds, r \in RIds, dt \in {1, 4} : NewMinor(s, p, r, dt, 2, 0)
        \/ \E p \in RIds, d \in 1..MaxD, l \in Lists, m \in {"none", "bad"} :
              \* a badly formed block is tried with the empty list only: its list cannot matter
              (m = "bad" => l = <<>>) /\ NewRoot(p, d, l, m)
        \/ \E m \in MIds \ vM : Validated(m)
        \/ \E i \in RIds \ kR : Acceptable(i) /\ Deliver(<<i>>)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* F03
HeadIsBest == \A i \in 1..Len(acc) : /\ ~Better(acc[i], head)
                                     /\ (~Better(head, acc[i]) => \E j \in 1..i : acc[j] = head)
Closed == \A i \in kR : RChain(i) \subseteq kR
F03Inv == head \in kR /\ HeadIsBest /\ Closed
\* V01: along every accepted chain each shard's confirmed headers are one unbroken path, of validated headers only,
\* each depending on a root block of that chain
RECURSIVE Confirmed(_)
Confirmed(r) == IF r = 0 THEN <<>> ELSE Confirmed(rb[r].p) \o rb[r].l
V01Inv == \A i \in kR : LET c == Confirmed(i) IN
             /\ Rng(c) \subseteq vM
             /\ \A a, b \in 1..Len(c) : a # b => c[a] # c[b]
             /\ \A s \in Shards : LET q == OfShard(c, s) IN
                   \A k \in 1..Len(q) : mb[q[k]].p = (IF k = 1 THEN 0 ELSE q[k-1])
             /\ \A k \in 1..Len(c) : mb[c[k]].r \in RChain(i)
HeadMoves == [][head' # head => Better(head', head)]_vars
=============================================================================

----------------------------- MODULE ShardChain -----------------------------
(* One shard's view of the world: the tree of shard blocks, the tree of root  *)
(* blocks, which of them have been delivered, the shard head and the root     *)
(* head.  One action per public call of core.MinorBlockChain: a shard block   *)
(* is delivered (InsertChain / AddBlock) or a root block is (AddRootBlock).   *)
(* New* actions describe what the rest of the network may produce: any block  *)
(* that is valid on its own ancestry, whether or not this node saw it.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxM,     \* number of shard blocks besides the genesis block
          MaxR,     \* number of root blocks besides the genesis block
          MaxD,     \* difficulties of root blocks are 1..MaxD
          MaxPer    \* shard headers one root block may list

VARIABLES mb,       \* shard blocks: [p |-> parent, r |-> root block depended on, h |-> height, tx |-> transactions]
          rb,       \* root blocks: [p |-> parent, h |-> height, td |-> total difficulty, conf |-> last confirmed shard block (0: none), l |-> listed]
          kM, kR,   \* delivered and accepted
          tip, rtip \* heads

vars == <<mb, rb, kM, kR, tip, rtip>>

RECURSIVE MChain(_)
MChain(i) == IF i = 0 THEN {} ELSE {i} \cup MChain(mb[i].p)
RECURSIVE RChain(_)
RChain(i) == IF i = 0 THEN {} ELSE {i} \cup RChain(rb[i].p)

\* the ancestor of t at height h (0 if there is none)
At(t, h) == LET S == {x \in MChain(t) : mb[x].h = h} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE

MIds == 1..Len(mb)
RIds == 1..Len(rb)

Init == /\ mb = <<[p |-> 0, r |-> 1, h |-> 0, tx |-> <<>>]>>
        /\ rb = <<[p |-> 0, h |-> 0, td |-> 1, conf |-> 0, l |-> <<>>]>>
        /\ kM = {1} /\ kR = {1} /\ tip = 1 /\ rtip = 1

-----------------------------------------------------------------------------
\* What the network may produce.
ValidMinor(p, r) == /\ mb[p].r \in RChain(r)
                    /\ rb[r].conf = 0 \/ rb[r].conf \in MChain(p)

NewMinor(p, r, tx) ==
    /\ Len(mb) < MaxM + 1
    /\ ValidMinor(p, r)
    /\ mb' = Append(mb, [p |-> p, r |-> r, h |-> mb[p].h + 1, tx |-> tx])
    /\ UNCHANGED <<rb, kM, kR, tip, rtip>>

\* the shard blocks a root block on p newly confirms if it ends at e, oldest first
Seg(p, e) == LET S == MChain(e) \ MChain(rb[p].conf)
                 n == Cardinality(S)
             IN [i \in 1..n |-> CHOOSE x \in S : Cardinality({y \in S : mb[y].h < mb[x].h}) = i - 1]
ValidRoot(p, e) ==
    \/ e = rb[p].conf
    \/ /\ e # 0
       /\ rb[p].conf = 0 \/ rb[p].conf \in MChain(e)
       /\ \A x \in MChain(e) \ MChain(rb[p].conf) : mb[x].r \in RChain(p)
       /\ Cardinality(MChain(e) \ MChain(rb[p].conf)) <= MaxPer

NewRoot(p, d, e) ==
    /\ Len(rb) < MaxR + 1
    /\ ValidRoot(p, e)
    /\ rb' = Append(rb, [p |-> p, h |-> rb[p].h + 1, td |-> rb[p].td + d, conf |-> e,
                         l |-> IF e = rb[p].conf THEN <<>> ELSE Seg(p, e)])
    /\ UNCHANGED <<mb, kM, kR, tip, rtip>>

-----------------------------------------------------------------------------
\* What this node does.
AcceptableM(m) == m \notin kM /\ mb[m].p \in kM /\ mb[m].r \in kR
Linked(m) == LET c == rb[rtip].conf IN c = 0 \/ (c \in MChain(m) /\ m # c)
BecomesTip(m) ==
    /\ mb[m].r \in RChain(rtip)
    /\ \/ mb[m].p = tip
       \/ /\ Linked(m)
          /\ \/ mb[m].h > mb[tip].h
             \/ mb[m].h = mb[tip].h /\ rb[mb[m].r].h > rb[mb[tip].r].h

DeliverMinor(m) ==
    /\ IF AcceptableM(m)
       THEN /\ kM' = kM \cup {m}
            /\ tip' = IF BecomesTip(m) THEN m ELSE tip
       ELSE UNCHANGED <<kM, tip>>
    /\ UNCHANGED <<mb, rb, kR, rtip>>

AcceptableR(r) == r \notin kR /\ rb[r].p \in kR /\ \A i \in 1..Len(rb[r].l) : rb[r].l[i] \in kM

RECURSIVE WalkBack(_, _)
WalkBack(t, r) == IF mb[t].r \in RChain(r) THEN t ELSE WalkBack(mb[t].p, r)

TipAfterRoot(r) ==
    LET c  == rb[r].conf
        t0 == IF c # 0 /\ c \notin MChain(tip) THEN c ELSE tip
    IN WalkBack(t0, r)

DeliverRoot(r) ==
    /\ IF AcceptableR(r)
       THEN /\ kR' = kR \cup {r}
            /\ IF rb[r].td > rb[rtip].td
               THEN rtip' = r /\ tip' = TipAfterRoot(r)
               ELSE UNCHANGED <<rtip, tip>>
       ELSE UNCHANGED <<kR, rtip, tip>>
    /\ UNCHANGED <<mb, rb, kM>>

Produce == \/ \E p \in MIds, r \in RIds : NewMinor(p, r, <<>>)
           \/ \E p \in RIds, d \in 1..MaxD, e \in {0} \cup MIds : NewRoot(p, d, e)
Deliver == \/ \E m \in MIds \ kM : AcceptableM(m) /\ DeliverMinor(m)
           \/ \E r \in RIds \ kR : AcceptableR(r) /\ DeliverRoot(r)
Next == Produce \/ Deliver
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == kM \subseteq MIds /\ kR \subseteq RIds /\ tip \in kM /\ rtip \in kR
\* F01
HeadOnRootChain == mb[tip].r \in RChain(rtip)
HeadOnConfirmed == rb[rtip].conf # 0 => rb[rtip].conf \in MChain(tip)
RootHeaviest == \A r \in kR : rb[r].td <= rb[rtip].td
Closed == /\ \A m \in kM : MChain(m) \subseteq kM /\ mb[m].r \in kR
          /\ \A r \in kR : RChain(r) \subseteq kR
F01Inv == TypeOK /\ HeadOnRootChain /\ HeadOnConfirmed /\ RootHeaviest /\ Closed
\* a node that knows everything and stands on the root head's chain has a head no lower than the confirmed block
NotBelowConfirmed == rb[rtip].conf # 0 => mb[tip].h >= mb[rb[rtip].conf].h
\* F01 as a step property: heads only move for the reasons given
HeadMoves == [][tip' # tip => \/ (\E m \in kM' \ kM : tip' = m)
                              \/ rtip' # rtip]_vars
RootMoves == [][rtip' # rtip => rb[rtip'].td > rb[rtip].td]_vars
=============================================================================

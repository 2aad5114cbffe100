--------------------------- MODULE ShardChainGen ---------------------------
(* Behaviours of ShardChain as operation lists with the expected heads.       *)
EXTENDS ShardChain, Json

VARIABLES hist, ph
gvars == <<vars, hist, ph>>

GInit == Init /\ hist = <<>> /\ ph = "make"

Rec(r) == hist' = Append(hist, r)
Pick(S) == RandomElement(S)

Pairs == {<<p, r>> \in MIds \X RIds : ValidMinor(p, r)}
MaxH == CHOOSE h \in {mb[i].h : i \in MIds} : \A i \in MIds : mb[i].h <= h
DeepPairs == {x \in Pairs : mb[x[1]].h >= MaxH - 1}
TxSeqs == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<3>>}

MakeMinor ==
    /\ ph = "make" /\ Len(mb) < MaxM + 1
    /\ \E w \in {Pick(1..4)} :
       \E c \in {IF w = 1 \/ DeepPairs = {} THEN Pick(Pairs) ELSE Pick(DeepPairs)} :
       \E tx \in {Pick(TxSeqs)} :
          /\ NewMinor(c[1], c[2], tx)
          /\ Rec([op |-> "M", id |-> Len(mb) + 1, p |-> c[1], r |-> c[2], tx |-> tx])
    /\ UNCHANGED ph

Roots == {<<p, e>> \in RIds \X ({0} \cup MIds) : ValidRoot(p, e)}
RMaxH == CHOOSE h \in {rb[i].h : i \in RIds} : \A i \in RIds : rb[i].h <= h
DeepRoots == {x \in Roots : rb[x[1]].h >= RMaxH - 1 /\ x[2] # rb[x[1]].conf}
MakeRoot ==
    /\ ph = "make" /\ Len(rb) < MaxR + 1
    /\ \E w \in {Pick(1..3)} :
       \E c \in {IF w = 1 \/ DeepRoots = {} THEN Pick(Roots) ELSE Pick(DeepRoots)} :
       \E d \in {Pick(1..MaxD)} :
          /\ NewRoot(c[1], d, c[2])
          /\ Rec([op |-> "R", id |-> Len(rb) + 1, p |-> c[1], d |-> d,
                  l |-> IF c[2] = rb[c[1]].conf THEN <<>> ELSE Seg(c[1], c[2])])
    /\ UNCHANGED ph

Start == /\ ph = "make" /\ Len(mb) = MaxM + 1 /\ Len(rb) = MaxR + 1
         /\ ph' = "run" /\ UNCHANGED <<vars, hist>>

AllKnown == kM = MIds /\ kR = RIds
Left == Cardinality(MIds \ kM) + Cardinality(RIds \ kR)
OkM == {m \in MIds : AcceptableM(m)}
OkR == {r \in RIds : AcceptableR(r)}

RunMinor ==
    /\ ph = "run" /\ ~AllKnown
    /\ \E w \in {Pick(1..8)} :
       \E m \in {IF w > 1 /\ OkM # {} THEN Pick(OkM) ELSE Pick(MIds \ {1})} :
          /\ DeliverMinor(m)
          /\ Rec([op |-> "dm", id |-> m, ok |-> AcceptableM(m), dup |-> m \in kM, tip |-> tip', rtip |-> rtip'])
    /\ UNCHANGED ph
RunRoot ==
    /\ ph = "run" /\ ~AllKnown
    /\ \E w \in {Pick(1..6)} :
       \E r \in {IF w > 1 /\ OkR # {} THEN Pick(OkR) ELSE Pick(RIds \ {1})} :
          /\ DeliverRoot(r)
          /\ Rec([op |-> "dr", id |-> r, ok |-> AcceptableR(r), dup |-> r \in kR, tip |-> tip', rtip |-> rtip'])
    /\ UNCHANGED ph
Finish == /\ ph = "run" /\ AllKnown
          /\ PrintT(<<"TRACE", ToJson(hist)>>)
          /\ ph' = "done" /\ UNCHANGED <<vars, hist>>

GNext == MakeMinor \/ MakeRoot \/ Start \/ RunMinor \/ RunRoot \/ Finish
GSpec == GInit /\ [][GNext]_gvars
Stop == ph # "done"
=============================================================================

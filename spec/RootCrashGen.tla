---------------------------- MODULE RootCrashGen ----------------------------
(* Behaviours of RootChain in which the process dies inside one delivery (or  *)
(* its first start), is opened again and given the rest.                       *)
EXTENDS RootChainGen
Runs == {i \in 1..Len(hist) : hist[i].op = "dr" /\ hist[i].taken # <<>>}
Before(i) == IF {j \in Runs : j < i} = {} THEN 1
             ELSE hist[CHOOSE j \in Runs : j < i /\ \A k \in Runs : k < i => k <= j].head
Moves == {i \in Runs : hist[i].head # Before(i)}
Turns == {i \in Moves : rb[hist[i].head].p # Before(i)}
CrashAt == \E w \in {Pick(1..8)} :
           \E c \in {IF Runs = {} \/ w = 1 THEN 0
                      ELSE IF w <= 4 /\ Turns # {} THEN Pick(Turns) ELSE IF w <= 6 /\ Moves # {} THEN Pick(Moves) ELSE Pick(Runs)} :
           \E again \in {Pick(BOOLEAN)} : \E re \in {Pick(BOOLEAN)} :
               /\ hist' = Append(hist, [op |-> "crash", at |-> c - 1, again |-> again, re |-> re, head |-> head])
               /\ PrintT(<<"TRACE", ToJson(hist')>>)
CFinish == /\ ph = "run" /\ vM = MIds /\ ~\E i \in RIds : Acceptable(i)
           /\ CrashAt
           /\ ph' = "done" /\ UNCHANGED vars
CNext == MakeMinor \/ MakeRoot \/ Start \/ RunValid \/ RunRoot \/ CFinish
CSpec == GInit /\ [][CNext]_gvars
=============================================================================

--------------------------- MODULE ShardCrashGen ---------------------------
(* Behaviours of ShardChain in which the process dies inside one delivery,    *)
(* is restarted at the root block the master stands at, is given everything   *)
(* again and finally a chain that must win.                                    *)
EXTENDS ShardChainGen
\* deliveries so far, with the heads around each
Runs == {i \in 1..Len(hist) : hist[i].op \in {"dm", "dr"}}
Before(i) == IF i - 1 \in Runs THEN hist[i - 1] ELSE [tip |-> 1, rtip |-> 1]
Moves == {i \in Runs : hist[i].tip # Before(i).tip}
\* a head that does not extend the one before
Turns == {i \in Moves : mb[hist[i].tip].p # Before(i).tip}
CrashAt == \E w \in {Pick(1..4)} :
           \E c \in {IF w <= 2 /\ Turns # {} THEN Pick(Turns) ELSE IF w <= 3 /\ Moves # {} THEN Pick(Moves) ELSE Pick(Runs)} :
           \E arch \in {Pick(BOOLEAN)} : \E again \in {Pick(BOOLEAN)} : \E re \in {Pick(BOOLEAN)} :
           \E first \in {Pick(1..12)} :
           LET ini == IF first = 1 THEN 1 ELSE hist[c].rtip
           IN  /\ hist' = Append(hist, [op |-> "crash", at |-> IF first = 1 THEN 0 - 1 ELSE c - 1, ini |-> ini, conf |-> IF ini = 1 THEN 0 ELSE IF rb[ini].conf = 0 THEN 1 ELSE rb[ini].conf, arch |-> arch, again |-> again, re |-> re,
                                   tip |-> tip, rtip |-> rtip, n |-> MaxH - mb[tip].h + 1])
               /\ PrintT(<<"TRACE", ToJson(hist')>>)
CFinish == /\ ph = "run" /\ AllKnown
           /\ CrashAt
           /\ ph' = "done" /\ UNCHANGED vars
CNext == MakeMinor \/ MakeRoot \/ Start \/ RunMinor \/ RunRoot \/ CFinish
CSpec == GInit /\ [][CNext]_gvars
=============================================================================

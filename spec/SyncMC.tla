------------------------------- MODULE SyncMC -------------------------------
EXTENDS Sync
CONSTANT N
MCInit == \E l \in 0..N : \E m \in 1..N : \E k \in {0 - 1} \cup 0..m : \E h \in BOOLEAN : \E d \in Detect \cup Lies \cup Honest : \E a \in 1..4 :
            SInit(l, m, k, h, d, a)
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================

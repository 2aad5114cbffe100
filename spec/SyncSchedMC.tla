----------------------------- MODULE SyncSchedMC -----------------------------
EXTENDS SyncSched
CONSTANTS Prios, MaxTasks
VARIABLES n
MCInit == SSInit /\ n = 0
MCNext == \/ n < MaxTasks /\ n' = n + 1 /\ \E q \in Peers, p \in Prios : Add(q, [id |-> n + 1, p |-> p])
          \/ Done /\ UNCHANGED n
\* what is still waiting never outranks ... a task starts only if no waiting task had a higher priority
BestFirst == [][\A q \in Peers : (Len(started') > Len(started) /\ run # 0 /\ wait[q] # None /\ wait[q].id = started'[Len(started')]) => q \in Best(wait)]_<<svars, n>>
MCSpec == MCInit /\ [][MCNext]_<<svars, n>> /\ WF_<<svars, n>>(Done /\ UNCHANGED n)
AllRun == <>[](run = 0 /\ Waiting(wait) = {})
==============================================================================

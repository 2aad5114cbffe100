------------------------------ MODULE SyncSched ------------------------------
(* Which peer's task the synchroniser runs next (cluster/sync/sync.go).      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Peers
VARIABLES wait,     \* the newest waiting task of each peer: [id, p] or None
          run,      \* the running task (0: none)
          started   \* the tasks started, in order
svars == <<wait, run, started>>
None == [id |-> 0, p |-> 0]
Waiting(w) == {q \in Peers : w[q] # None}
Best(w) == {q \in Waiting(w) : \A r \in Waiting(w) : w[r].p <= w[q].p}
SSInit == wait = [q \in Peers |-> None] /\ run = 0 /\ started = <<>>
\* an idle runner takes a task of the highest priority at once
Take(w, q) == run' = w[q].id /\ started' = Append(started, w[q].id) /\ wait' = [w EXCEPT ![q] = None]
Add(q, t) == LET w == [wait EXCEPT ![q] = t] IN
             IF run = 0 THEN Take(w, q) ELSE wait' = w /\ UNCHANGED <<run, started>>
Done == /\ run # 0
        /\ IF Waiting(wait) = {} THEN run' = 0 /\ UNCHANGED <<wait, started>> ELSE \E q \in Best(wait) : Take(wait, q)
Syncing == run # 0
\* an idle runner leaves no task waiting; every started task was the best of its moment (Take is only used with the best)
NoneLeft == run = 0 => Waiting(wait) = {}
Once == \A i, j \in 1..Len(started) : started[i] = started[j] => i = j
==============================================================================

--------------------------- MODULE RemoteWorkMC ---------------------------
(* All histories over few blocks: the work rules.                            *)
EXTENDS RemoteWork
CONSTANTS MaxId, MaxTip
VARIABLES issued, gone, last   \* blocks made; ids withdrawn by a newer tip; ids in the order of issue per address
mvars == <<vars, issued, gone, last>>
NoBlock == [id |-> 0, a |-> "-", n |-> 0, d |-> 1, adj |-> 1, div |-> 1]
Blocks == {[id |-> i, a |-> a, n |-> n, d |-> 2000, adj |-> j, div |-> 10] : i \in {Cardinality(issued) + 1}, a \in Addrs, n \in {tip - MaxStale, tip + 1}, j \in {500, 2000}}
Mk(b) == issued' = issued \cup {b}
MInit == RInit /\ issued = {} /\ gone = {} /\ last = [a \in Addrs |-> 0]
Note(b) == last' = [last EXCEPT ![b.a] = b.id]
MNext ==
  \/ \E b \in Blocks : b.id <= MaxId /\ Issue(b) /\ Mk(b) /\ Note(b) /\ UNCHANGED gone
  \/ \E b \in issued : Issue(b) /\ Note(b) /\ UNCHANGED issued /\ gone' = gone \ {b.id}
  \/ \E b \in issued : \E l \in {0, 2, 200, 500, 2000} : \E s \in {"none", "guardian", "other"} : Submit(b, l, s) /\ UNCHANGED <<issued, gone, last>>
  \/ TakeAll /\ UNCHANGED <<issued, gone, last>>
  \/ \E b \in {x \in Blocks : x.a = Default /\ x.n = tip + 1} : b.id <= MaxId /\ On(b) /\ (IF syncing THEN UNCHANGED <<issued, last>> ELSE Mk(b) /\ Note(b)) /\ UNCHANGED gone
  \/ Off /\ UNCHANGED <<issued, gone, last>>
  \/ \E b \in {x \in Blocks : x.a = Default /\ x.n = tip + 1} : tip < MaxTip /\ b.id <= MaxId /\ NewTip(b) /\ gone' = gone \cup {x.id : x \in issued} /\
         (IF mining /\ ~syncing THEN Mk(b) /\ last' = [[a \in Addrs |-> 0] EXCEPT ![b.a] = b.id] ELSE last' = [a \in Addrs |-> 0] /\ UNCHANGED issued)
  \/ SyncOn /\ UNCHANGED <<issued, gone, last>>
  \/ \E b \in {x \in Blocks : x.a = Default /\ x.n = tip + 1} : b.id <= MaxId /\ SyncOff(b) /\ (IF owed /\ mining THEN Mk(b) /\ Note(b) ELSE UNCHANGED <<issued, last>>) /\ UNCHANGED gone
MSpec == MInit /\ [][MNext]_mvars
(* Work handed out is the latest issued for the address and not withdrawn. *)
Latest == \A a \in Addrs : IF last[a] = 0 THEN cur[a] = None ELSE cur[a] # None /\ cur[a].id = last[a]
NotWithdrawn == \A a \in Addrs : cur[a] # None => cur[a].id \notin gone
(* Only current work is accepted, and an acceptance changes nothing else. *)
AcceptCurrent == [][\A b \in issued : (Len(queue') > Len(queue) /\ queue'[Len(queue')] = b.id) =>
                     Current(b) /\ b.id \notin gone /\ mining /\ ~syncing /\ cur' = cur /\ height' = height]_mvars
(* Without a signature nothing below the adjusted difficulty is enough; a stake reduction is not combined with a signature. *)
Strict == \A b \in issued : Needed(b, "none") = b.adj /\ (b.adj # b.d => Needed(b, "guardian") = b.adj)
===========================================================================

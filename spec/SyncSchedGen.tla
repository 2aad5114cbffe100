----------------------------- MODULE SyncSchedGen -----------------------------
EXTENDS SyncSched, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, ph, used, n
gvars == <<svars, hist, ph, used, n>>
Pick(S) == RandomElement(S)
Note(r) == hist' = Append(hist, r)
Id == n + 1
Ties == {[peer |-> q, id |-> wait[q].id] : q \in Best(wait)}
Step == \E q \in {Pick(Peers)} : \E x \in {Pick(1..3)} : \E y \in {Pick(1..3)} :
       \* every third priority is one that is waiting already: whichever of the equals goes first, none is lost
       \E p \in {IF y = 1 /\ Waiting(wait) # {} THEN wait[Pick(Waiting(wait))].p ELSE Pick(1..60 \ used)} :
          IF run # 0 /\ x = 1 THEN Done /\ UNCHANGED <<used, n>> /\ Note([op |-> "done", run |-> run', ties |-> Ties])
          ELSE Add(q, [id |-> Id, p |-> p]) /\ n' = Id /\ used' = used \cup {p} /\ Note([op |-> "add", peer |-> q, id |-> Id, p |-> p, run |-> run'])
GInit == SSInit /\ hist = <<>> /\ ph = "make" /\ used = {} /\ n = 0
Make == ph = "make" /\ ph' = "run" /\ \E root \in {Pick(BOOLEAN)} : Note([op |-> "sched", root |-> root]) /\ UNCHANGED <<svars, used, n>>
Run == ph = "run" /\ Len(hist) < MaxOps /\ Step /\ UNCHANGED ph
Drain == ph = "run" /\ Len(hist) >= MaxOps /\ run # 0 /\ Done /\ UNCHANGED <<ph, used, n>> /\ Note([op |-> "done", run |-> run', ties |-> Ties])
Finish == ph = "run" /\ Len(hist) >= MaxOps /\ run = 0 /\ ph' = "done" /\ PrintT(<<"TRACE", ToJson(hist)>>) /\ UNCHANGED <<svars, hist, used, n>>
GSpec == GInit /\ [][Make \/ Run \/ Drain \/ Finish]_gvars
===============================================================================

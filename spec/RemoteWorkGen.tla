--------------------------- MODULE RemoteWorkGen ---------------------------
(* Histories of work issue, fetch, tip change and submission.                *)
EXTENDS RemoteWork, TLC, Json
CONSTANTS MaxOps
VARIABLES made, hist, ph
gvars == <<vars, made, hist, ph>>
Pick(S) == RandomElement(S)
Note(r) == hist' = Append(hist, r) /\ UNCHANGED ph
Ds == {8000, 8003, 16000}
Block(a, n, d, r, v) == [id |-> Len(made) + 1, a |-> a, n |-> n, d |-> d, adj |-> (IF r = 1 THEN d \div 4 ELSE d), div |-> v]
NewId(b) == b.id = Len(made) + 1
Keep(b) == made' = (IF NewId(b) THEN Append(made, b) ELSE made)
Want(c, a) == IF c[a] = None THEN 0 ELSE c[a].id
Step ==
  \E x \in {Pick(1..24)} : \E a \in {Pick(Addrs)} : \E d \in {Pick(Ds)} : \E r \in {Pick(1..3)} : \E v \in {Pick({1, 10, 10, 100})} :
  \E dn \in {Pick({0 - 7, 0 - 6, 0 - 5, 0, 0, 0, 0, 1, 6, 7})} : \E re \in {Pick(1..4)} :
  LET def == Block(Default, tip + 1, d, r, v)
      deft == Block(Default, tip + 2, d, r, v) IN
  CASE x <= 5 -> \E b \in {IF re = 1 /\ made # <<>> THEN made[Pick(DOMAIN made)] ELSE Block(a, tip + 1 + dn, d, r, v)} :
                   Issue(b) /\ Keep(b) /\ Note([op |-> "issue", b |-> b])
    [] x \in 6..7 -> Note([op |-> "fetch", a |-> a, want |-> Want(cur, a)]) /\ UNCHANGED <<vars, made>>
    [] x \in 8..9 -> \E b \in {Block(a, tip + 1, d, r, v)} : Get(b) /\ (IF cur[a] = None THEN Keep(b) ELSE UNCHANGED made) /\
                     Note([op |-> "get", b |-> b, want |-> IF cur[a] = None THEN b.id ELSE cur[a].id])
    [] x \in 10..17 -> /\ made # <<>>
         /\ \E i \in {IF re <= 2 /\ \E c \in Addrs : cur[c] # None THEN cur[Pick({c \in Addrs : cur[c] # None})].id ELSE Pick(DOMAIN made)} :
            \E s \in {Pick({"none", "none", "guardian", "other"})} :
            \E l \in {Pick({0, made[i].d \div 1000, made[i].d \div made[i].div, made[i].adj, made[i].d})} :
            \E l2 \in {IF re = 3 THEN Needed(made[i], s) ELSE l} :
              /\ Submit(made[i], l2, s) /\ UNCHANGED made
              /\ Note([op |-> "submit", id |-> i, level |-> l2, sig |-> s, ok |-> Len(queue') > Len(queue), cur |-> [c \in Addrs |-> Want(cur, c)]])
    [] x \in 18..19 -> TakeAll /\ UNCHANGED made /\ Note([op |-> "take", want |-> queue])
    [] x = 20 -> (IF mining THEN Off /\ UNCHANGED made /\ Note([op |-> "off"])
                  ELSE On(def) /\ (IF syncing THEN UNCHANGED made ELSE Keep(def)) /\ Note([op |-> "on", b |-> def, made |-> ~syncing]))
    [] x \in 21..22 -> NewTip(deft) /\ (IF mining /\ ~syncing THEN Keep(deft) ELSE UNCHANGED made) /\ Note([op |-> "tip", b |-> deft, made |-> mining /\ ~syncing])
    [] OTHER -> IF syncing THEN SyncOff(def) /\ (IF owed /\ mining THEN Keep(def) ELSE UNCHANGED made) /\ Note([op |-> "syncoff", b |-> def, made |-> owed /\ mining])
                ELSE IF Pick(1..4) = 1 THEN SyncOn /\ UNCHANGED made /\ Note([op |-> "syncon"])
                ELSE Note([op |-> "fetch", a |-> a, want |-> Want(cur, a)]) /\ UNCHANGED <<vars, made>>
GInit == RInit /\ made = <<>> /\ hist = <<>> /\ ph = "first"
First == /\ ph = "first" /\ ph' = "run" /\ \E root \in {Pick(BOOLEAN)} : \E m \in {Pick(1..8)} :
           IF m = 1 THEN UNCHANGED <<vars, made>> /\ hist' = <<[op |-> "start", root |-> root, cap |-> Cap, stale |-> MaxStale]>>
           ELSE \E b \in {Block(Default, tip + 1, 8000, 2, 10)} : On(b) /\ Keep(b) /\ hist' = <<[op |-> "start", root |-> root, cap |-> Cap, stale |-> MaxStale], [op |-> "on", b |-> b, made |-> TRUE]>>
Run == ph = "run" /\ Len(hist) < MaxOps /\ Step
Finish == ph = "run" /\ Len(hist) >= MaxOps /\ ph' = "done" /\ PrintT(<<"TRACE", ToJson(hist)>>) /\ UNCHANGED <<vars, made, hist>>
GSpec == GInit /\ [][First \/ Run \/ Finish]_gvars
============================================================================

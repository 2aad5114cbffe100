---------------------------- MODULE PeerSessionMC ----------------------------
EXTENDS PeerSession
CONSTANTS MaxTop, MaxTasks
Tips == [td : 1..2, id : 1..2, num : {1, MaxTop}, n : {0}]
MTips == {[td |-> 1, id |-> 1, num |-> 1, n |-> 1], [td |-> 1, id |-> 1, num |-> 1, n |-> 2], [td |-> 1, id |-> 2, num |-> 1, n |-> 1], [td |-> 2, id |-> 1, num |-> 1, n |-> 1]}
MCNext ==
  \/ \E p \in Peers, t \in Tips, g \in BOOLEAN : Connect(p, t, g)
  \/ \E p \in Peers : Leave(p)
  \/ \E p \in Peers, t \in Tips, m \in 0..1 : Tip(p, t, m)
  \/ \E p \in Peers, b \in Branches \cup {9}, t \in MTips, c \in 1..2, x, y \in BOOLEAN : MinorTip(p, b, t, c, x, y)
  \/ \E p \in Peers, b \in Branches \cup {9}, a \in {"ok", "known", "bad"} : MinorBlock(p, b, a)
  \/ \E p \in Peers, b \in Branches \cup {0, 9} : Txs(p, b)
  \/ \E p \in Peers, ok \in BOOLEAN : Request(p, ok)
  \/ Grow \/ Switch
\* what any request is answered with is on the canonical chain, in steps, within the bounds
Answers == \A s \in 0..(MaxTop + 1), st \in {0 - 2, 0 - 1, 1, 2}, n \in 1..3 :
  LET a == Heads(s, st, n) IN Len(a) <= n /\ \A i \in 1..Len(a) : IsCanon(a[i]) /\ a[i].h = s + (i - 1) * st
Ancestors == \A h \in 0..main, n \in 1..(MaxTop + 2) : LET a == Parents([b |-> "m", h |-> h], n, <<>>) IN
  \A i \in 1..(Len(a) - 1) : Parent(a[i]) = a[i + 1] /\ (Len(a) < n => a[Len(a)].h = 0)
MCSpec == PInit(0, 1, 1) /\ [][MCNext]_svars
View == <<chainvars, up, head, mtip>>
Bound == main <= MaxTop /\ side <= MaxTop /\ Len(tasks) <= MaxTasks
==============================================================================

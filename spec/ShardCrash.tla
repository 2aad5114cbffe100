----------------------------- MODULE ShardCrash -----------------------------
(* ShardChain on a disk: every delivery becomes a sequence of atomic writes,  *)
(* the process may die between any two of them, and comes back at the root    *)
(* block its master stands at.  What is in memory is lost, what is on disk    *)
(* stays.                                                                      *)
EXTENDS ShardChain

CONSTANTS Atomic,  \* head marker, height index and commit mark go in one write
          Keep     \* coming back keeps the shard blocks above the confirmed one

VARIABLES body,    \* stored shard blocks
          mark,    \* those marked as added
          canon,   \* height index
          dhead,   \* head marker
          droot,   \* stored root blocks
          up,      \* running
          pend,    \* writes still to be made
          master   \* the master's root head

dvars == <<body, mark, canon, dhead, droot, up, pend, master>>
cvars == <<vars, dvars>>

Chain(t) == [h \in 0..MaxM |-> At(t, h)]
Idle == up /\ pend = <<>>

CInit == /\ Init
         /\ body = {1} /\ mark = {1} /\ canon = Chain(1) /\ dhead = 1 /\ droot = {1}
         /\ up = TRUE /\ pend = <<>> /\ master = 1

W(k, x) == [w |-> k, x |-> x]
\* moving the head to t, marking m as added (0: nothing to mark), dropping marks
Move(t, m, drop) == IF Atomic THEN <<[w |-> "move", x |-> t, m |-> m, d |-> drop]>>
                    ELSE <<W("canon", t), W("head", t), W("mark", m), W("drop", drop)>>

CProduce == Idle /\ Produce /\ UNCHANGED dvars
CMinor(m) == /\ Idle /\ AcceptableM(m) /\ DeliverMinor(m)
             /\ pend' = <<W("body", m)>> \o (IF tip' = m THEN Move(m, m, {}) ELSE <<W("mark", m)>>)
             /\ UNCHANGED <<body, mark, canon, dhead, droot, up, master>>
CRoot(r) == /\ Idle /\ AcceptableR(r) /\ DeliverRoot(r)
            /\ master' = rtip'
            /\ pend' = <<W("root", r)>> \o (IF tip' # tip THEN Move(tip', 0, {}) ELSE <<>>)
            /\ UNCHANGED <<body, mark, canon, dhead, droot, up>>

Write == /\ up /\ pend # <<>>
         /\ LET x == Head(pend) IN
            /\ body' = IF x.w = "body" THEN body \cup {x.x} ELSE body
            /\ mark' = CASE x.w = "mark" /\ x.x # 0 -> mark \cup {x.x}
                         [] x.w = "move" -> ((mark \cup {x.m}) \ {0}) \ x.d
                         [] x.w = "drop" -> mark \ x.x
                         [] OTHER -> mark
            /\ canon' = IF x.w \in {"move", "canon"} THEN Chain(x.x) ELSE canon
            /\ dhead' = IF x.w \in {"move", "head"} THEN x.x ELSE dhead
            /\ droot' = IF x.w = "root" THEN droot \cup {x.x} ELSE droot
         /\ pend' = Tail(pend)
         /\ UNCHANGED <<vars, up, master>>

Die == /\ up /\ up' = FALSE /\ pend' = <<>> /\ UNCHANGED <<vars, body, mark, canon, dhead, droot, master>>

\* the head after coming back at root block r with head marker t
BackAt(r) == IF r = 1 THEN dhead ELSE IF rb[r].conf = 0 THEN 1 ELSE rb[r].conf
Above(t, c) == IF ~Keep /\ c \in MChain(t) THEN MChain(t) \ MChain(c) ELSE {}
Back ==
    /\ ~up /\ up' = TRUE
    /\ \A i \in 1..Len(rb[master].l) : rb[master].l[i] \in mark
    /\ kM' = mark /\ kR' = droot \cup {master} /\ rtip' = master /\ tip' = BackAt(master)
    /\ LET mid == IF master \in droot THEN dhead ELSE
                   LET c == rb[master].conf
                       t0 == IF c # 0 /\ c \notin MChain(dhead) THEN c ELSE dhead
                   IN  WalkBack(t0, master)
       IN  pend' = (IF master \in droot THEN <<>> ELSE <<W("root", master)>>)
                   \o (IF mid # dhead THEN Move(mid, 0, {}) ELSE <<>>)
                   \o (IF master # 1 THEN Move(tip', 0, Above(mid, tip')) ELSE <<>>)
    /\ UNCHANGED <<mb, rb, body, mark, canon, dhead, droot, master>>

CNext == CProduce \/ (\E m \in MIds \ kM : CMinor(m)) \/ (\E r \in RIds \ kR : CRoot(r)) \/ Write \/ Die \/ Back
CSpec == CInit /\ [][CNext]_cvars

-----------------------------------------------------------------------------
\* what a reader of the disk may count on at every moment
OnDisk == /\ dhead \in mark /\ mark \subseteq body /\ droot \subseteq RIds
          /\ canon = Chain(dhead)
          /\ \A m \in mark : MChain(m) \subseteq mark /\ mb[m].r \in droot
          /\ \A r \in droot : RChain(r) \subseteq droot
\* what a stored root block confirms is there
Confirmed == \A r \in droot : rb[r].conf # 0 => rb[r].conf \in mark
\* the master is at most one root block ahead of the disk
MasterKnown == master \in droot \/ rb[master].p \in droot
\* when nothing is left to write, disk and memory agree
Agree == Idle => /\ dhead = tip /\ mark = kM /\ droot = kR /\ rtip = master
\* once back, the head obeys F01 again
BackOK == up => HeadOnRootChain /\ HeadOnConfirmed
\* nothing that was added is ever lost
NothingLost == [][mark \subseteq mark' /\ droot \subseteq droot']_cvars
\* coming back is always possible
CanReturn == ~up => ENABLED Back
=============================================================================

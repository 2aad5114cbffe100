----------------------------- MODULE RootCrash -----------------------------
(* RootChain on a disk, taken in by a master: note the block that is being    *)
(* distributed, write it with its indexes and the head, tell the shards,      *)
(* remove the note.  The process may die between any two writes.  The set of  *)
(* validated shard headers is kept by its own single writes.                  *)
EXTENDS RootChainMC

CONSTANT Atomic   \* block, records, height index and head go in one write

VARIABLES body, canon, dhead, recs,  \* on disk: blocks, height index, head, confirmed-header records
          note,                      \* on disk: block being distributed (0: none)
          told,                      \* root blocks the shards received
          up, pend

dvars == <<body, canon, dhead, recs, note, told, up, pend>>
cvars == <<vars, dvars>>

Chain(t) == [h \in 0..MaxR |-> At(t, h)]
Idle == up /\ pend = <<>>
CInit == /\ Init /\ body = {1} /\ canon = Chain(1) /\ dhead = 1 /\ recs = {1} /\ note = 0 /\ told = {1}
         /\ up = TRUE /\ pend = <<>>

W(k, x) == [w |-> k, x |-> x]
Produce == \/ \E s \in Shards, p \in {0} \cup MIds, r \in RIds : NewMinor(s, p, r, 1, 2, 0)
           \/ \E p \in RIds, d \in 1..MaxD, l \in Lists : NewRoot(p, d, l, "none")
CProduce == Idle /\ Produce /\ UNCHANGED dvars
CValid(m) == Idle /\ Validated(m) /\ UNCHANGED dvars
CDeliver(i) ==
    /\ Idle /\ Acceptable(i) /\ Deliver(<<i>>)
    /\ pend' = <<W("note", i)>>
               \o (IF Atomic THEN <<W("all", i)>>
                   ELSE <<W("recs", i), W("body", i)>> \o (IF head' = i THEN <<W("canon", i), W("head", i)>> ELSE <<>>))
               \o <<W("tell", i), W("note", 0)>>
    /\ UNCHANGED <<body, canon, dhead, recs, note, told, up>>
Write ==
    /\ up /\ pend # <<>>
    /\ LET x == Head(pend)  mv == x.w = "all" /\ head = x.x
       IN /\ body' = IF x.w \in {"all", "body"} THEN body \cup {x.x} ELSE body
          /\ recs' = IF x.w \in {"all", "recs"} THEN recs \cup {x.x} ELSE recs
          /\ canon' = IF x.w = "canon" \/ mv THEN Chain(x.x) ELSE canon
          /\ dhead' = IF x.w = "head" \/ mv THEN x.x ELSE dhead
          /\ note' = IF x.w = "note" THEN x.x ELSE note
          /\ told' = IF x.w = "tell" THEN told \cup {x.x} ELSE told
    /\ pend' = Tail(pend) /\ UNCHANGED <<vars, up>>
Die == up /\ up' = FALSE /\ pend' = <<>> /\ UNCHANGED <<vars, body, canon, dhead, recs, note, told>>
\* opening: what is in memory is what is on disk; a noted block is told (again) if it is there
InOrder(s) == SelectSeq(acc, LAMBDA i : i \in s)
Back == /\ ~up /\ up' = TRUE /\ acc' = InOrder(body) /\ head' = dhead
        /\ pend' = IF note = 0 THEN <<>> ELSE (IF note \in body THEN <<W("tell", note)>> ELSE <<>>) \o <<W("note", 0)>>
        /\ UNCHANGED <<mb, rb, vM, body, canon, dhead, recs, note, told>>
CNext == CProduce \/ (\E m \in MIds \ vM : CValid(m)) \/ (\E i \in RIds \ kR : CDeliver(i)) \/ Write \/ Die \/ Back
CSpec == CInit /\ [][CNext]_cvars
-----------------------------------------------------------------------------
OnDisk == /\ dhead \in body /\ body \subseteq recs /\ canon = Chain(dhead)
          /\ \A i \in body : RChain(i) \subseteq body
\* a block on disk the shards did not get is noted
Distribution == body \subseteq told \cup {note}
Agree == Idle => body = kR /\ dhead = head /\ body \subseteq told
BestOnDisk == \A i \in body : ~Better(i, dhead)
NothingLost == [][body \subseteq body']_cvars
=============================================================================

----------------------------- MODULE PublishMC -----------------------------
(* Every small history with every delivery as a step of its own that may fail *)
(* before or after it took effect.                                            *)
EXTENDS Publish
CONSTANTS MaxB, MaxFail

VARIABLES call,   \* the call under way
          got,    \* <<block, shard, host>>: list received
          hdr,    \* headers the master has
          tips,   \* announced tips
          fails
mvars == <<blk, com, head, pool, big, call, got, hdr, tips, fails>>
None == [ph |-> "none"]
MInit == PInit /\ call = None /\ got = {} /\ hdr = {1} /\ tips = {} /\ fails = 0

Make == /\ call = None /\ Len(blk) < MaxB
        /\ \E p \in BIds : \E r \in blk[p].r..2 : \E bad \in BOOLEAN :
              blk' = Append(blk, [p |-> p, h |-> blk[p].h + 1, r |-> r, x |-> <<>>, bad |-> bad])
        /\ UNCHANGED <<big, com, head, pool, call, got, hdr, tips, fails>>
Lists == {<<a>> : a \in BIds \ {1}} \cup {l \in {<<a, b>> : a \in BIds \ {1}, b \in BIds \ {1}} : l[1] # l[2]}
         \cup {l \in {<<a, b, c>> : a \in BIds \ {1}, b \in BIds \ {1}, c \in BIds \ {1}} : Cardinality(SetOf(l)) = 3}
Start == /\ call = None
         /\ \E kind \in {"add", "relay", "batch"} : \E bs \in Lists :
               /\ kind # "batch" => Len(bs) = 1
               /\ LET e == Run(kind, bs)
                  IN  call' = [ph |-> IF e.ok /\ e.ins # <<>> THEN "lists" ELSE "end", kind |-> kind, bs |-> bs, e |-> e,
                               todo |-> IF e.ok THEN Needed ELSE {}, ok |-> e.ok, fail |-> ""]
         /\ UNCHANGED <<big, blk, com, head, pool, got, hdr, tips, fails>>
Fails(f) == fails < MaxFail /\ fails' = fails + 1 /\ call' = [call EXCEPT !.ph = "end", !.ok = FALSE, !.fail = f]
Deliver == /\ call.ph = "lists"
           /\ IF call.todo = {} THEN call' = [call EXCEPT !.ph = "hdr"] /\ UNCHANGED <<got, fails>>
              ELSE \E n \in call.todo :
                   LET g == {<<b, n[1], n[2]>> : b \in SetOf(call.e.ins)}
                   IN  \/ call' = [call EXCEPT !.todo = @ \ {n}] /\ got' = got \cup g /\ UNCHANGED fails
                       \/ n[2] # 0 /\ Fails("x") /\ \E eff \in BOOLEAN : got' = IF eff THEN got \cup g ELSE got
           /\ UNCHANGED <<big, blk, com, head, pool, hdr, tips>>
Header == /\ call.ph = "hdr"
          /\ \/ hdr' = hdr \cup SetOf(call.e.ins) /\ call' = [call EXCEPT !.ph = IF Tip(call.kind, call.e) THEN "tip" ELSE "end"] /\ UNCHANGED fails
             \/ Fails("hdr") /\ \E eff \in BOOLEAN : hdr' = IF eff THEN hdr \cup SetOf(call.e.ins) ELSE hdr
          /\ UNCHANGED <<big, blk, com, head, pool, got, tips>>
Announce == /\ call.ph = "tip"
            /\ \/ tips' = tips \cup {call.e.head} /\ call' = [call EXCEPT !.ph = "end"] /\ UNCHANGED fails
               \/ Fails("tip") /\ \E eff \in BOOLEAN : tips' = IF eff THEN tips \cup {call.e.head} ELSE tips
            /\ UNCHANGED <<big, blk, com, head, pool, got, hdr>>
End == /\ call.ph = "end"
       /\ com' = IF call.ok THEN com \cup SetOf(call.e.ins) ELSE com
       /\ head' = IF call.ok THEN call.e.head ELSE head
       /\ pool' = PoolAfter(call.kind, call.bs)
       /\ call' = None
       /\ UNCHANGED <<big, blk, got, hdr, tips, fails>>
MNext == Make \/ Start \/ Deliver \/ Header \/ Announce \/ End
MSpec == MInit /\ [][MNext]_mvars

Complete(b) == \A n \in Needed : <<b, n[1], n[2]>> \in got
\* what counts as taken in is published, and so is all it builds on
Published == \A b \in com \ {1} : Complete(b) /\ b \in hdr /\ blk[b].p \in com /\ ~blk[b].bad
\* the master hears of a block only when its lists are where they are needed, the network only when the master knows
Ordered == \A b \in hdr \ {1} : Complete(b)
Announced == \A b \in tips : b \in hdr /\ Complete(b)
HeadIn == head \in com
\* no taken-in block would have become head instead
HeadHighest == \A b \in com : blk[b].h <= blk[head].h
\* the steps of a call together do what Outcome says
Agrees == call # None /\ call.ph = "end" =>
    LET o == Outcome(call.kind, call.bs, call.fail)
    IN  /\ o.ok = call.ok
        /\ o.ok => SetOf(o.ins) = SetOf(call.e.ins) /\ o.head = call.e.head /\ (o.tip => o.head \in tips)
\* a call repeated without failures completes what is missing
Repeats == call = None => \A b \in BIds \ {1} : (blk[b].p \in com /\ ~blk[b].bad) =>
    LET o == Outcome("add", <<b>>, "") IN o.ok /\ (b \in com \/ SetOf(o.ins) = {b})
RepeatsRelay == call = None => \A b \in BIds \ {1} : (blk[b].p \in com /\ ~blk[b].bad) => b \notin pool
=============================================================================

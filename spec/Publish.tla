------------------------------ MODULE Publish ------------------------------
(* How a shard takes in blocks and publishes them: a block is executed, the   *)
(* lists of its outgoing transfers go to every host of every other shard, the *)
(* master gets its header, and then the new tip is announced.                 *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES blk,    \* blocks: [p, h, r, x, bad]: parent, height, root block (1 or 2), destinations of its transfers
          com,    \* blocks taken in and published
          head,   \* head of the chain
          pool,   \* relayed blocks that could not be executed
          big     \* whether there are so many shards that shard 2 is not a neighbour

BIds == 1..Len(blk)
\* shards 1 (same host as this shard, 0), 2 and 3; host 0 has this shard and shard 1
Hosts == {<<1, 0>>, <<2, 1>>, <<3, 1>>, <<3, 2>>}     \* <<shard, host>>
Needed == IF big THEN Hosts \ {<<2, 1>>} ELSE Hosts
Remote == {n \in Needed : n[2] # 0}
PInit == /\ blk = <<[p |-> 0, h |-> 0, r |-> 1, x |-> <<>>, bad |-> FALSE]>>
         /\ big \in BOOLEAN /\ com = {1} /\ head = 1 /\ pool = {}

\* the head after block b is executed on the chain with head t
TipAfter(t, b) == IF \/ blk[b].p = t
                     \/ blk[b].h > blk[t].h
                     \/ (blk[b].h = blk[t].h /\ blk[b].r > blk[t].r)
                  THEN b ELSE t

\* what becomes of the blocks of a call: [ok, ins: those executed, head]
RECURSIVE Exec(_, _, _)
Exec(bs, i, e) ==
    IF i > Len(bs) THEN e
    ELSE IF bs[i] = 0 THEN Exec(bs, i + 1, e)     \* a block of another shard is passed over
    ELSE IF bs[i] \in com \cup {e.ins[k] : k \in 1..Len(e.ins)} THEN Exec(bs, i + 1, e)
    ELSE IF blk[bs[i]].bad \/ blk[bs[i]].p \notin com \cup {e.ins[k] : k \in 1..Len(e.ins)}
         THEN [ok |-> FALSE, ins |-> <<>>, head |-> head]
    ELSE Exec(bs, i + 1, [ok |-> TRUE, ins |-> Append(e.ins, bs[i]), head |-> TipAfter(e.head, bs[i])])
\* kinds of call: add (one block), relay (one block from the network or mined here), batch
Run(kind, bs) == IF kind = "relay" /\ (bs[1] \in pool \/ blk[bs[1]].p \notin com)
                 THEN [ok |-> TRUE, ins |-> <<>>, head |-> head]
                 ELSE Exec(bs, 1, [ok |-> TRUE, ins |-> <<>>, head |-> head])
\* fail: what is going to fail: "" (nothing), "x" (a delivery), "hdr", "tip"
Tip(kind, e) == kind # "batch" /\ e.head # head
Outcome(kind, bs, fail) ==
    LET e == Run(kind, bs)
    IN  IF ~e.ok \/ e.ins = <<>> THEN [ok |-> e.ok, ins |-> <<>>, head |-> head, tip |-> FALSE]
        ELSE IF fail \in {"x", "hdr"} \/ (fail = "tip" /\ Tip(kind, e))
        THEN [ok |-> FALSE, ins |-> e.ins, head |-> head, tip |-> FALSE]
        ELSE [ok |-> TRUE, ins |-> e.ins, head |-> e.head, tip |-> Tip(kind, e)]
SetOf(s) == {s[k] : k \in 1..Len(s)}
Apply(o) == /\ head' = o.head
            /\ com' = IF o.ok THEN com \cup SetOf(o.ins) ELSE com
\* a relayed block that cannot be executed is remembered, so that it is not relayed again
PoolAfter(kind, bs) == IF kind = "relay" /\ blk[bs[1]].bad /\ bs[1] \notin com /\ blk[bs[1]].p \in com THEN pool \cup {bs[1]} ELSE pool
=============================================================================

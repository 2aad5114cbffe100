---------------------------- MODULE RemoteWork ----------------------------
(* Work handed to external miners.  A block to be mined is a record          *)
(*  [id, a: coinbase, n: height, d: difficulty, adj: difficulty after the    *)
(*   stake rule, div: divider for signed solutions].                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Addrs, Default, None, MaxStale, Cap
VARIABLES cur,      \* latest work of each address, None if never issued or withdrawn
          height,   \* height of the work issued last
          queue,    \* accepted solutions the node has not taken yet
          tip, mining, syncing, owed   \* the node; owed: work on the current tip will be issued once synchronisation ends
vars == <<cur, height, queue, tip, mining, syncing, owed>>
RInit == cur = [a \in Addrs |-> None] /\ height = 0 /\ queue = <<>> /\ tip = 10 /\ mining = FALSE /\ syncing = FALSE /\ owed = FALSE

Put(c, b) == [c EXCEPT ![b.a] = b]
Withdrawn == [a \in Addrs |-> None]
Issue(b) == cur' = Put(cur, b) /\ height' = b.n /\ UNCHANGED <<queue, tip, mining, syncing, owed>>

(* What a solution has to reach.  sig: none, guardian, other. *)
Needed(b, sig) == IF sig # "none" /\ b.adj = b.d THEN IF sig = "guardian" THEN b.d \div 1000 ELSE b.d \div b.div ELSE b.adj
Current(b) == \E a \in Addrs : cur[a] # None /\ cur[a].id = b.id
Acceptable(b, level, sig) == Current(b) /\ level >= Needed(b, sig) /\ b.n + MaxStale > height /\ Len(queue) < Cap
Submit(b, level, sig) == /\ queue' = (IF mining /\ ~syncing /\ Acceptable(b, level, sig) THEN Append(queue, b.id) ELSE queue)
                         /\ UNCHANGED <<cur, height, tip, mining, syncing, owed>>
TakeAll == queue' = <<>> /\ UNCHANGED <<cur, height, tip, mining, syncing, owed>>

(* The node: b is the block its chain would create for the default address. *)
On(b) == /\ mining' = TRUE /\ UNCHANGED <<queue, tip, syncing>>
         /\ IF syncing THEN owed' = TRUE /\ UNCHANGED <<cur, height>> ELSE cur' = Put(cur, b) /\ height' = b.n /\ owed' = FALSE
Off == mining' = FALSE /\ owed' = FALSE /\ UNCHANGED <<cur, height, queue, tip, syncing>>
NewTip(b) == /\ tip' = tip + 1 /\ UNCHANGED <<queue, mining, syncing>>
             /\ IF mining /\ ~syncing THEN cur' = Put(Withdrawn, b) /\ height' = b.n /\ owed' = FALSE
                ELSE cur' = Withdrawn /\ owed' = mining /\ UNCHANGED height
SyncOn == syncing' = TRUE /\ UNCHANGED <<cur, height, queue, tip, mining, owed>>
SyncOff(b) == /\ syncing' = FALSE /\ owed' = FALSE /\ UNCHANGED <<queue, tip, mining>>
              /\ IF owed /\ mining THEN cur' = Put(cur, b) /\ height' = b.n ELSE UNCHANGED <<cur, height>>
(* A request for work: the latest work, or a block made for the address. *)
Get(b) == IF cur[b.a] # None THEN UNCHANGED vars ELSE Issue(b)
===========================================================================

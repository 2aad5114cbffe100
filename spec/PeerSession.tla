----------------------------- MODULE PeerSession -----------------------------
(* What a master does with the messages of its peers (cluster/master):       *)
(* handshake, answers from its root chain, announcements, forwarding to the  *)
(* hosts of the shards, announcements of its own, and when it hangs up.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Peers, Branches      \* Branches: shards that have a host here
VARIABLES fork, main, side, onside,   \* root blocks m0..m<main>, and s<fork+1>..s<side> on m<fork>; the head is on the side branch
          up, head, mtip,             \* per peer: connected; announced root head; announced shard tips
          tasks                       \* synchronisation tasks queued, as (peer, id of the header)
svars == <<fork, main, side, onside, up, head, mtip, tasks>>
chainvars == <<fork, main, side, onside>>
NoTip == [td |-> 0, id |-> 0, num |-> 0, n |-> 0]
Top == IF onside THEN side ELSE main
Canon(h) == IF h <= fork \/ ~onside THEN [b |-> "m", h |-> h] ELSE [b |-> "s", h |-> h]
Known(r) == IF r.b = "m" THEN r.h <= main ELSE r.b = "s" /\ r.h > fork /\ r.h <= side
IsCanon(r) == Known(r) /\ Canon(r.h) = r /\ r.h <= Top
PInit(f, m, s) ==
  /\ fork = f /\ main = m /\ side = s /\ onside = FALSE
  /\ up = [p \in Peers |-> FALSE] /\ head = [p \in Peers |-> NoTip] /\ mtip = [p \in Peers |-> [b \in Branches |-> NoTip]] /\ tasks = <<>>

Drop(p) == up' = [up EXCEPT ![p] = FALSE] /\ UNCHANGED <<chainvars, head, mtip, tasks>>
Keep == UNCHANGED svars

\* ---- handshake ----
Connect(p, tip, good) ==
  /\ ~up[p]
  /\ IF ~good THEN Keep
     ELSE /\ up' = [up EXCEPT ![p] = TRUE] /\ head' = [head EXCEPT ![p] = tip]
          /\ mtip' = [mtip EXCEPT ![p] = [b \in Branches |-> NoTip]] /\ tasks' = Append(tasks, [p |-> p, id |-> tip.id]) /\ UNCHANGED chainvars
Leave(p) == up[p] /\ Drop(p)

\* ---- announcements of peers ----
TipOk(p, tip) == tip.td > head[p].td \/ (tip.td = head[p].td /\ tip.id = head[p].id)
Tip(p, tip, minors) ==
  /\ up[p]
  /\ IF minors # 0 \/ ~TipOk(p, tip) THEN Drop(p)
     ELSE /\ head' = [head EXCEPT ![p] = tip]
          /\ tasks' = (IF tip.num > Top THEN Append(tasks, [p |-> p, id |-> tip.id]) ELSE tasks)
          /\ UNCHANGED <<chainvars, up, mtip>>
\* t: root header announced with it (td, id, num) and the shard block's height n
MTipOk(p, b, t) == LET o == mtip[p][b] IN
  o = NoTip \/ t.td > o.td \/ (t.td = o.td /\ t.id = o.id /\ t.n >= o.n)
MinorTip(p, b, t, count, match, slaveok) ==
  /\ up[p]
  /\ IF count # 1 \/ ~match \/ b \notin Branches THEN Drop(p)
     ELSE IF ~MTipOk(p, b, t) THEN Drop(p)
     ELSE /\ mtip' = [mtip EXCEPT ![p][b] = t] /\ up' = [up EXCEPT ![p] = slaveok] /\ UNCHANGED <<chainvars, head, tasks>>
MinorTipForwarded(p, b, t, count, match) == count = 1 /\ match /\ b \in Branches /\ MTipOk(p, b, t)
\* a shard block or transactions for a shard: handed to its hosts; the peer is dropped when there is none, or a host refuses
\* the block for another reason than knowing it
MinorBlock(p, b, answer) == up[p] /\ (IF b \notin Branches \/ answer = "bad" THEN Drop(p) ELSE Keep)
Txs(p, b) == up[p] /\ (IF b \notin Branches \cup {0} THEN Drop(p) ELSE Keep)

\* ---- answers ----
RECURSIVE Walk(_, _, _, _)
Walk(h, step, n, acc) == IF n = 0 \/ h < 0 \/ h > Top THEN acc ELSE Walk(h + step, step, n - 1, Append(acc, Canon(h)))
Limit == 1000
Heads(start, step, n) == Walk(start, step, n, <<>>)
RECURSIVE Parents(_, _, _)
Parent(r) == IF r.b = "s" /\ r.h = fork + 1 THEN [b |-> "m", h |-> fork] ELSE [b |-> r.b, h |-> r.h - 1]
Parents(r, n, acc) == IF n = 0 THEN acc ELSE IF r.h = 0 THEN Append(acc, r) ELSE Parents(Parent(r), n - 1, Append(acc, r))
Request(p, ok) == up[p] /\ (IF ok THEN Keep ELSE Drop(p))

\* ---- this node's own announcements ----
Grow == /\ IF onside THEN side' = side + 1 /\ UNCHANGED main ELSE main' = main + 1 /\ UNCHANGED side
        /\ UNCHANGED <<fork, onside, up, head, mtip, tasks>>
\* the other branch overtakes by one block
Switch == /\ side > fork
          /\ IF onside THEN main' = side + 1 /\ UNCHANGED side ELSE side' = main + 1 /\ UNCHANGED main
          /\ onside' = ~onside /\ UNCHANGED <<fork, up, head, mtip, tasks>>
Told(h) == {p \in Peers : up[p] /\ head[p].num < h}
\* a shard's tip is announced to the peers that are not known to be further
MTold(b, t) == {p \in Peers : up[p] /\ LET o == mtip[p][b] IN
                 o = NoTip \/ ~(o.num > t.num \/ (o.num = t.num /\ o.n > t.n) \/ o = t)}

\* a connected peer's announcements never get lighter
NeverLighter == [][\A p \in Peers : up[p] /\ up'[p] => head'[p].td >= head[p].td /\ \A b \in Branches : mtip'[p][b].td >= mtip[p][b].td]_svars
\* a peer that changes its announced head without getting heavier is not kept
NoEquivocation == [][\A p \in Peers : up[p] /\ up'[p] /\ head'[p].id # head[p].id => head'[p].td > head[p].td]_svars
\* nothing a peer sends changes this node's chain or another peer's session (Grow and Switch are this node's own steps)
Isolated == [][\A p, q \in Peers : p # q /\ (up'[p] # up[p] \/ head'[p] # head[p]) => up'[q] = up[q] /\ head'[q] = head[q] /\ UNCHANGED chainvars]_svars
==============================================================================

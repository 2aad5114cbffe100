---------------------------- MODULE PeerSessionGen ----------------------------
EXTENDS PeerSession, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, ph, nid
gvars == <<svars, hist, ph, nid>>
Pick(S) == RandomElement(S)
Note(r) == hist' = Append(hist, r)
Up == {p \in Peers : up[p]}
\* a root header a peer announces: often the one it had, or a heavier one
Ann(p, x, d, n) == IF x <= 2 THEN head[p] ELSE [td |-> head[p].td + d, id |-> nid, num |-> n, n |-> 0]
Fresh == nid' = nid + 1
Ref(x, b, h) == IF x = 1 THEN [b |-> "x", h |-> h] ELSE [b |-> b, h |-> h]
\* a reference to a block this node has, or now and then one it has not
Clamp(r) == IF r.b = "m" THEN [r EXCEPT !.h = IF r.h > main THEN main ELSE r.h] ELSE IF r.b = "s" /\ side > fork THEN [r EXCEPT !.h = IF r.h > side THEN side ELSE IF r.h <= fork THEN fork + 1 ELSE r.h] ELSE [r EXCEPT !.b = "x"]
\* strides of 2^32 and 2^32 - 1 (skips of 2^32 - 1 and 2^32 - 2) are out of reach of any chain
Stride(st) == IF st <= 0 THEN 1000000 ELSE st
Kinds == {"hello", "op", "short", "garbage", "newroot", "ping", "peers", "limit0", "limitbig", "dir", "type", "walkdir", "walkhash", "walklimit", "manyblocks", "stray"}
Step ==
  \E x \in {Pick(1..42)} : \E y \in {Pick(1..8)} : \E z \in {Pick(0..9)} : \E n \in {Pick(0..(Top + 3))} : \E st \in {Pick({1, 2, 3, 7, 0, 0 - 1})} : \E lm \in {Pick({1, 2, 3, 5, 1000})} :
  \E sg \in {Pick({1, 0 - 1})} : \E b \in {Pick({1, 2, 2, 3})} : \E bb \in {Pick(Branches \cup {9})} : \E good \in {Pick(1..4)} :
  \E r0 \in {Clamp(Ref(Pick(1..10), Pick({"m", "s"}), n))} :
  IF Up = {} \/ (x <= 3 /\ Up # Peers)
  THEN \E p \in {Pick(Peers \ Up)} : \E t \in {[td |-> 10 + z, id |-> nid, num |-> n, n |-> 0]} : \E k \in {IF good > 1 THEN "ok" ELSE Pick({"network", "version", "genesis", "garbage", "short"})} :
         Connect(p, t, k = "ok") /\ Fresh /\ Note([op |-> "connect", p |-> p, tip |-> t, kind |-> k, up |-> up'[p]])
  ELSE \E p \in {Pick(Up)} :
  CASE x <= 9 -> \E t \in {Ann(p, y, z - 1, n)} : \E m \in {IF z = 9 /\ y = 8 THEN 1 ELSE 0} :
            /\ Tip(p, t, m) /\ Fresh
            /\ Note([op |-> "tip", p |-> p, tip |-> t, minors |-> m, up |-> up'[p], task |-> Len(tasks') > Len(tasks)])
    [] x \in 10..15 -> \E o \in {IF bb = 9 THEN NoTip ELSE mtip[p][bb]} : \E t \in {[td |-> o.td + (IF y = 1 THEN (IF o.td > 0 THEN 0 - 1 ELSE 0) ELSE IF y <= 4 THEN 0 ELSE 1), id |-> (IF y \in 2..3 /\ o # NoTip THEN o.id ELSE nid), num |-> (IF y \in 2..3 /\ o # NoTip THEN o.num ELSE n), n |-> (IF z = 1 /\ o.n > 0 THEN o.n - 1 ELSE o.n + b - 1)]} :
          \E c \in {IF z = 0 THEN Pick({0, 2}) ELSE 1} : \E m \in {z # 2} : \E s \in {z # 3} :
            /\ MinorTip(p, bb, t, c, m, s) /\ Fresh
            /\ Note([op |-> "mtip", p |-> p, b |-> bb, tip |-> t, count |-> c, match |-> m, host |-> s, up |-> up'[p], fwd |-> MinorTipForwarded(p, bb, t, c, m)])
    [] x \in 16..18 -> \E a \in {Pick({"ok", "ok", "known", "bad"})} :
            MinorBlock(p, bb, a) /\ UNCHANGED nid /\ Note([op |-> "block", p |-> p, b |-> bb, host |-> a, up |-> up'[p], fwd |-> bb \in Branches])
    [] x \in 19..21 -> \E tb \in {IF y = 1 THEN 0 ELSE bb} : \E a \in {Pick({"ok", "bad"})} :
            Txs(p, tb) /\ UNCHANGED nid /\ Note([op |-> "txs", p |-> p, b |-> tb, host |-> a, up |-> up'[p], fwd |-> tb \in Branches \cup {0}])
    [] x \in 22..25 -> Request(p, TRUE) /\ UNCHANGED nid /\ Note([op |-> "heads", p |-> p, start |-> n, skip |-> st - 1, dir |-> sg, limit |-> lm, answer |-> Heads(n, sg * Stride(st), lm), top |-> Canon(Top)])
    [] x \in 26..28 -> Request(p, TRUE) /\ UNCHANGED nid /\
            Note([op |-> "headsof", p |-> p, ref |-> r0, skip |-> st - 1, dir |-> sg, limit |-> lm, answer |-> IF IsCanon(r0) THEN Heads(r0.h, sg * Stride(st), lm) ELSE <<>>, top |-> Canon(Top)])
    [] x \in 29..30 -> Request(p, Known(r0)) /\ UNCHANGED nid /\
            Note([op |-> "walk", p |-> p, ref |-> r0, limit |-> lm, answer |-> IF Known(r0) THEN Parents(r0, lm, <<>>) ELSE <<>>, up |-> Known(r0), top |-> Canon(Top)])
    [] x = 31 -> \E rs \in {[i \in 1..z |-> LET e == Clamp(Ref(Pick(1..6), Pick({"m", "s"}), Pick(0..(Top + 2)))) IN e]} :
            Request(p, TRUE) /\ UNCHANGED nid /\ Note([op |-> "blocks", p |-> p, refs |-> rs])
    [] x = 32 -> \E k \in {Pick(Kinds)} : Request(p, k = "stray") /\ UNCHANGED nid /\ Note([op |-> "bad", p |-> p, kind |-> k, up |-> up'[p]])
    [] x = 33 -> \E k \in {Pick({"minorblocks", "minorheads", "minorskip"})} : \E a \in {Pick({"ok", "ok", "bad"})} :
            Request(p, bb \in Branches /\ a = "ok") /\ UNCHANGED nid /\ Note([op |-> "serve", p |-> p, kind |-> k, b |-> bb, host |-> a, up |-> up'[p]])
    [] x \in 34..35 -> Grow /\ UNCHANGED nid /\ Note([op |-> "grow", block |-> (IF onside THEN [b |-> "s", h |-> side + 1] ELSE [b |-> "m", h |-> main + 1]), told |-> Told(Top + 1)])
    [] x = 36 /\ side > fork -> Switch /\ UNCHANGED nid /\ Note([op |-> "switch", onside |-> onside', from |-> (IF onside THEN main ELSE side), top |-> Top + 1, told |-> Told(Top + 1)])
    [] x = 37 -> Leave(p) /\ UNCHANGED nid /\ Note([op |-> "leave", p |-> p])
    [] x = 38 -> UNCHANGED <<svars, nid>> /\ Note([op |-> "relay", p |-> p, b |-> bb, known |-> y > 3, to |-> IF y > 3 THEN Up \ {p} ELSE Up, kind |-> IF z < 5 THEN "block" ELSE "txs"])
    [] x \in 39..40 /\ bb # 9 -> \E o \in {mtip[p][bb]} : \E t \in {IF y = 1 /\ o # NoTip THEN o ELSE [td |-> 0, id |-> nid, num |-> IF o.num + z > 4 THEN o.num + z - 4 ELSE 0, n |-> IF o.n + b > 2 THEN o.n + b - 2 ELSE 1]} :
            UNCHANGED svars /\ Fresh /\ Note([op |-> "announce", b |-> bb, tip |-> t, told |-> MTold(bb, t)])
    [] OTHER -> \E k \in {Pick({"rootheads", "rootblocks", "minorblocks", "minorheads", "minorskip"})} : \E a \in {Pick({"right", "wrong", "twice"})} :
            UNCHANGED <<svars, nid>> /\ Note([op |-> "ask", p |-> p, kind |-> k, reply |-> a])
GInit == PInit(0, 1, 0) /\ hist = <<>> /\ ph = "make" /\ nid = 1
Make == ph = "make" /\ ph' = "run" /\ UNCHANGED <<up, head, mtip, tasks, nid, onside>> /\
        \E m \in {Pick(1..6)} : \E f \in {Pick(0..(m - 1))} : \E s \in {Pick(f..(m - 1))} :
          fork' = f /\ main' = m /\ side' = s /\ Note([op |-> "start", fork |-> f, main |-> m, side |-> s])
Run == ph = "run" /\ Len(hist) < MaxOps /\ Step /\ UNCHANGED ph
Finish == ph = "run" /\ Len(hist) >= MaxOps /\ ph' = "done" /\ PrintT(<<"TRACE", ToJson(hist)>>) /\ UNCHANGED <<svars, hist, nid>>
GSpec == GInit /\ [][Make \/ Run \/ Finish]_gvars
==============================================================================

---------------------------- MODULE PublishGen -----------------------------
(* Random histories of Publish with the result of every call.                 *)
EXTENDS Publish, Json, TLC
CONSTANTS MaxB, MaxCall
VARIABLES hist, ph, n
Pick(S) == RandomElement(S)
Rec(o) == hist' = Append(hist, o)
GInit == PInit /\ hist = <<[op |-> "cfg", big |-> big]>> /\ ph = "make" /\ n = 0
Good == {b \in BIds : ~blk[b].bad}
Make == /\ ph = "make" /\ Len(blk) < MaxB
        /\ \E z \in {Pick(1..3)}, q \in {Pick(Good)}, s \in {Pick(1..6)}, u \in {Pick(1..8)}, k \in {Pick(0..3)}, d1 \in {Pick(1..3)}, d2 \in {Pick(1..3)}, d3 \in {Pick(1..3)} :
           \E p \in {IF z > 1 /\ Len(blk) \in Good THEN Len(blk) ELSE q} :
           \E r \in {IF s = 1 THEN 2 ELSE blk[p].r}, x \in {SelectSeq(SubSeq(<<d1, d2, d3>>, 1, k), LAMBDA d : ~big \/ d # 2)} :
              /\ blk' = Append(blk, [p |-> p, h |-> blk[p].h + 1, r |-> r, x |-> x, bad |-> u = 1])
              /\ Rec([op |-> "B", id |-> Len(blk) + 1, p |-> p, r |-> r, x |-> x, bad |-> u = 1])
        /\ UNCHANGED <<big, com, head, pool, ph, n>>
Ready == ph = "make" /\ Len(blk) = MaxB /\ ph' = "run" /\ UNCHANGED <<big, blk, com, head, pool, hist, n>>
Open == {b \in BIds \ com : blk[b].p \in com}
Plan(z, m, u) == IF z > 4 THEN "" ELSE IF z <= 2 THEN "x" ELSE IF z = 3 THEN "hdr" ELSE "tip"
RECURSIVE PathTo(_)
PathTo(b) == IF b \in com THEN <<>> ELSE Append(PathTo(blk[b].p), b)
Call == /\ ph = "run" /\ n < MaxCall
        /\ \E k \in {Pick(1..8)}, z \in {Pick(1..9)}, a \in {Pick(BIds \ {1})}, c \in {Pick(IF Open = {} THEN BIds \ {1} ELSE Open)},
              v \in {Pick(1..5)}, e \in {Pick(BIds \ {1})}, g \in {Pick(BIds \ {1})}, w \in {Pick(Remote)}, eff \in {Pick(BOOLEAN)}, y \in {Pick(1..6)} :
           \E kind \in {IF k <= 2 THEN "add" ELSE IF k <= 4 THEN "relay" ELSE IF k = 5 THEN "pair" ELSE "batch"} :
           \E b \in {IF v = 1 THEN a ELSE c}, fail \in {IF z > 5 THEN "" ELSE IF z <= 2 THEN "x" ELSE IF z <= 4 THEN "hdr" ELSE "tip"} :
           \E bs \in {IF kind # "batch" THEN <<b>> ELSE IF y = 1 THEN <<a, e, g>> ELSE IF y = 2 THEN <<b, b, a>> ELSE IF y = 4 THEN <<0>> \o PathTo(e) ELSE IF y = 3 THEN PathTo(e) \o PathTo(g) ELSE PathTo(e)} :
           \E o1 \in {IF bs = <<>> THEN [ok |-> TRUE, ins |-> <<>>, head |-> head, tip |-> FALSE] ELSE Outcome(IF kind = "pair" THEN "add" ELSE kind, bs, fail)} :
           \E again \in {kind = "pair" /\ ~o1.ok /\ o1.ins # <<>>} :
           \E o \in {IF again THEN Outcome("add", bs, "") ELSE o1} :
              /\ Apply(o)
              /\ pool' = IF bs = <<>> THEN pool ELSE PoolAfter(kind, bs)
              /\ Rec([op |-> "C", kind |-> kind, bs |-> bs, fail |-> IF o1.ins = <<>> THEN "" ELSE fail, shard |-> w[1], host |-> w[2], eff |-> eff,
                      ok |-> o1.ok, ok2 |-> o.ok, ins |-> o1.ins, tip |-> o.tip, head |-> head', com |-> com'])
        /\ n' = n + 1
        /\ UNCHANGED <<big, blk, ph>>
Finish == /\ ph = "run" /\ n = MaxCall
          /\ PrintT(<<"TRACE", ToJson(hist)>>)
          /\ ph' = "done" /\ UNCHANGED <<big, blk, com, head, pool, hist, n>>
GNext == Make \/ Ready \/ Call \/ Finish
GSpec == GInit /\ [][GNext]_<<blk, com, head, pool, big, hist, ph, n>>
=============================================================================

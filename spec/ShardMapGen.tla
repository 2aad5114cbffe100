--------------------------- MODULE ShardMapGen ---------------------------
(* Configurations with queries and their answers.                           *)
EXTENDS ShardMap, Json
CONSTANTS MaxQ
VARIABLES hist, ph
gvars == <<vars, hist, ph>>
Pick(S) == RandomElement(S)
Local == {0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 33, 63, 64, 100, 127, 128, 129, 255, 256, 1023, 1024, 32767, 32768, 40000, 65535}
PickLocal(z) == IF Pick(1..2) = 1 THEN Pick(Local) ELSE Pick(0..65535)
RECURSIVE MkCfg(_, _)
MkCfg(n, m) == IF n = 0 THEN <<>> ELSE Append(MkCfg(n - 1, m), 2^Pick(0..m))
PickShard == Pick(Shards)
PickKey == [c |-> IF Pick(1..12) = 1 THEN Pick({Len(cfg), Len(cfg) + 1, 32768, 65535}) ELSE Pick(Chains), l |-> PickLocal(cfg)]

GInit == /\ cfg = <<>> /\ k1 = [c |-> 0, l |-> 0] /\ k2 = k1 /\ b = <<0, 0>> /\ hist = <<>> /\ ph = "cfg"
Choose == /\ ph = "cfg"
          /\ \E n \in {Pick({1, 2, 3, 4, 8, 20})} : \E m \in {Pick({0, 1, 3, 6, 8})} : cfg' = MkCfg(n, m)
          /\ hist' = <<[op |-> "cfg", sizes |-> cfg', total |-> Total', a |-> <<>>]>> /\ ph' = "ask" /\ UNCHANGED <<k1, k2, b>>
HomeOf(k) == IF Known(k) THEN Home(k) ELSE <<0 - 1, 0 - 1>>
Key2(ra, u, kk) == IF ra = 1 /\ Known(u) THEN [c |-> u.c, l |-> (u.l + Size(u.c)) % 65536] ELSE IF ra = 2 THEN [kk EXCEPT !.c = u.c] ELSE kk
Branch(rb, u, v, sh) == IF rb = 1 /\ Known(u) THEN Home(u) ELSE IF rb = 2 /\ Known(v) THEN Home(v) ELSE sh
Query ==
    /\ ph = "ask" /\ Len(hist) <= MaxQ
    /\ \E u \in {PickKey} : \E ra \in {Pick(1..4)} : \E kk \in {PickKey} : \E v \in {Key2(ra, u, kk)} :
       \E rb \in {Pick(1..3)} : \E sh \in {PickShard} : \E d \in {Branch(rb, u, v, sh)} :
       \E x \in {PickShard} : \E rc \in {Pick(1..3)} :
       \E y \in {IF rc = 1 THEN PickShard ELSE IF rc = 2 THEN Pick({z \in Shards : z[1] = x[1]}) ELSE Pick({z \in Shards : z[2] = x[2]})} :
       \E n \in {Pick({1, 31, 32, 33, Total})} :
         /\ hist' = Append(hist, [op |-> "q", k1 |-> u, k2 |-> v, b |-> d, h1 |-> HomeOf(u), h2 |-> HomeOf(v), in1 |-> In(u, d), in2 |-> In(v, d),
                                  same |-> Known(u) /\ Known(v) /\ HomeOf(u) = HomeOf(v), re |-> Rehomed(u, d),
                                  x |-> x, y |-> y, n |-> n, nb |-> Neighbours(n, x, y)])
    /\ UNCHANGED <<vars, ph>>
Finish == /\ ph = "ask" /\ Len(hist) > MaxQ /\ ph' = "done" /\ PrintT(<<"TRACE", ToJson(hist)>>) /\ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][Choose \/ Query \/ Finish]_gvars
==========================================================================

------------------------------ MODULE SyncGen ------------------------------
(* Cases of one synchronisation attempt, at the real limits.                 *)
EXTENDS Sync, TLC, Json
VARIABLES gp, searches
gvars == <<vars, gp, searches>>
Pick(S) == RandomElement(S)
GenClaims == {Pick({0 - 1, K, K \div 2})}
Clip(x) == Max(0, x)
NoteMade ==
  \E w \in {Pick(1..20)} : \E a \in {Pick(0..12)} : \E b \in {Pick(1..12)} : \E x \in {Pick(0..1300)} : \E y \in {Pick(1..1300)} :
  \E p \in {Pick(0..100)} : \E e \in {Pick((0-3)..3)} : \E f \in {Pick((0-2)..40)} : \E dv \in {Pick(1..3)} : \E at1 \in {Pick({1, 1, 1, 2, 2, 3, 4, 5})} : \E hv \in {Pick(1..9)} :
  \E d \in {IF dv = 1 THEN Pick(Honest) ELSE IF dv = 2 THEN Pick(SearchDetect \cup Lies) ELSE Pick(HeadDetect \cup BlockDetect)} :
  LET l == IF w <= 10 THEN a ELSE IF w <= 19 THEN x ELSE Stale + 5 + a
      m == IF w <= 8 THEN b ELSE IF w <= 15 THEN y ELSE IF w = 20 /\ p > 4 THEN Max(1, l - Stale + e + b) ELSE Max(1, l + f)
      k == IF w = 20 THEN l - Stale + e ELSE IF p <= 4 THEN 0 - 1 ELSE IF p <= 14 THEN Min(m, Clip(l + e)) ELSE IF p = 15 THEN m ELSE (Min(l, m - 1) * (p - 15)) \div 85 IN
  /\ L' = l /\ M' = m /\ K' = Min(k, m) /\ heavier' = (IF l <= Min(k, m) THEN m > l ELSE hv > 1) /\ dev' = d /\ at' = at1 /\ top' = m
Make == gp = "make" /\ NoteMade /\ gp' = "run" /\ UNCHANGED <<ph, start, end, best, anc, next, lo, hi, err, seen, fired, grown, searches>>
Run == gp = "run" /\ ph # "done" /\ Next /\ searches' = (IF ph = "search" /\ start <= end THEN searches + 1 ELSE searches) /\ UNCHANGED gp
Finish == /\ gp = "run" /\ ph = "done" /\ gp' = "done" /\ UNCHANGED <<vars, searches>>
          /\ PrintT(<<"TRACE", ToJson([op |-> "sync", root |-> Root, l |-> L, m |-> M, k |-> K, heavier |-> heavier, dev |-> dev, at |-> at, searches |-> searches,
                fired |-> fired, lo |-> lo, hi |-> hi, err |-> err, skip |-> Skip \/ K >= M, reach |-> Reach])>>)
GInit == SInit(0, 1, 0, TRUE, "none", 1) /\ gp = "make" /\ searches = 0
GSpec == GInit /\ [][Make \/ Run \/ Finish]_gvars
=============================================================================

----------------------------- MODULE MiningGen -----------------------------
EXTENDS Mining, Json, TLC
VARIABLES hist, ph, cur
gvars == <<vars, hist, ph, cur>>
Pick(S) == RandomElement(S)
Rec(r) == hist' = Append(hist, r)
None == [p |-> 0]
GInit == c = [posw |-> FALSE] /\ blk = <<>> /\ hist = <<>> /\ ph = "cfg" /\ cur = None

\* amounts are divisible so that the driver may scale all of them (ex = TRUE), or odd
Configure ==
    /\ ph = "cfg"
    /\ \E ex \in {Pick(BOOLEAN)} :
       \E cutoff \in {Pick({1, 7, 9})} : \E factor \in {Pick({2, 10, 64, 512})} : \E mind \in {Pick({50, 900, 2000})} :
       \E gend \in {Pick({60, 1000, 3001})} : \E dec \in {IF ex THEN <<1, 2>> ELSE Pick({<<9, 10>>, <<22, 25>>, <<1, 3>>, <<1, 1>>})} :
       \E epoch \in {IF dec[1] > 1 THEN Pick({3, 4}) ELSE Pick({1, 2, 3})} :
       \E base \in {IF ex THEN 131072 ELSE Pick({40001, 77777})} :
       \E rate \in {IF ex THEN <<1, 2>> ELSE Pick({<<1, 2>>, <<2, 3>>, <<1, 1>>, <<0, 1>>})} :
       \E win \in {Pick({2, 3, 4, 6})} : \E stake \in {IF ex THEN 131072 ELSE Pick({100000, 150001})} :
       \E div \in {Pick({2, 5, 20})} : \E posw \in {Pick(1..6)} : \E en \in {Pick({0, 0, 0, 20})} :
       \E bt \in {Pick({0, 0, 10, 40})} : \E steps \in {Pick({1, 3})} : \E intv \in {Pick({5, 30})} : \E dt \in {Pick({0, 0, 10, 30})} :
       \E b1 \in {Pick({0, 99999, 200000, 300000})} : \E b2 \in {Pick({450003, 800000})} : \E b3 \in {Pick({100000, 131072, 131073, 131071, 150001, 262144})} :
         /\ c' = [ex |-> ex, cutoff |-> cutoff, factor |-> factor, mind |-> mind, gend |-> gend, epoch |-> epoch, num |-> dec[1], den |-> dec[2],
                  base |-> base, rn |-> rate[1], rd |-> rate[2], win |-> win, stake |-> stake, div |-> div, posw |-> posw # 1, enT |-> en,
                  boostT |-> bt, mult |-> 2, steps |-> steps, intv |-> intv, decT |-> dt, bal |-> <<b1, b2, b3>>]
         /\ blk' = <<Genesis(c')>>
         /\ Rec([op |-> "C", cfg |-> c'])
    /\ ph' = "make" /\ UNCHANGED cur

Tops == {b \in Ids : blk[b].h + 2 >= (CHOOSE h \in {blk[x].h : x \in Ids} : \A x \in Ids : blk[x].h <= h)}
Dts == {1, 2, c.cutoff, c.cutoff + 1, 2 * c.cutoff, 2 * c.cutoff - 1, 3 * c.cutoff + 2, 101 * c.cutoff, 5, 30} \ {0}
Open ==
    /\ ph = "make" /\ cur.p = 0 /\ Len(blk) < MaxB
    /\ \E w \in {Pick(1..5)} : \E b \in {IF w = 1 THEN Pick(Ids) ELSE Pick(Tops)} : \E m \in {Pick(Miners)} : \E dt \in {Pick(Dts)} :
       \E k \in {Pick({0, 0, 1, 1, 2, 3})} :
         /\ NextDiff(b, dt) < 20000
         /\ cur' = [p |-> b, m |-> m, dt |-> dt, st |-> Start(b), txs |-> <<>>, left |-> k]
    /\ UNCHANGED <<vars, hist, ph>>
AddTx ==
    /\ cur.p # 0 /\ cur.left > 0
    /\ \E f \in {Pick(Miners)} : \E to \in {Pick(Miners \cup {0})} : \E k \in {Pick({"call", "call", "create", "x"})} : \E q \in {Pick({0, 0, 1})} :
       \E x \in {IF k = "x" THEN 0 ELSE Pick({0, 0, 700})} :
         LET g    == Used(k) + x
             have == cur.st.bal[f] - g * q
             lock == Locked(cur.p, cur.m, f)
         IN  IF have < 0 THEN cur' = [cur EXCEPT !.left = @ - 1]
             ELSE \E v \in {Pick({y \in {0, 1, have, have - lock, have - lock + 1, have - lock - 1, 1000} : y >= 0 /\ y <= have})} :
                    LET t == [k |-> k, f |-> f, to |-> IF k = "create" THEN 0 ELSE to, v |-> v, g |-> g, q |-> q]
                    IN  cur' = [cur EXCEPT !.st = Apply(cur.st, cur.p, cur.m, t), !.txs = Append(@, t), !.left = @ - 1]
    /\ UNCHANGED <<vars, hist, ph>>
Seal ==
    /\ cur.p # 0 /\ cur.left = 0
    /\ LET b == Block(cur.p, cur.m, cur.dt, cur.st) IN
       /\ blk' = Append(blk, b)
       /\ Rec([op |-> "B", id |-> Len(blk) + 1, p |-> cur.p, m |-> cur.m, dt |-> cur.dt, txs |-> cur.txs, d |-> b.d,
               eff |-> Effective(cur.p, cur.m, cur.dt), cb |-> b.cb, rw |-> Reward(b.h), bal |-> b.bal, res |-> b.res])
    /\ cur' = None /\ UNCHANGED <<c, ph>>
\* what would a block on b by m after dt need?
Query ==
    /\ ph = "make" /\ cur.p = 0 /\ Len(blk) > 1
    /\ \E b \in {Pick(Ids)} : \E m \in {Pick(Miners)} : \E dt \in {Pick(Dts)} :
         Rec([op |-> "Q", p |-> b, m |-> m, dt |-> dt, d |-> NextDiff(b, dt), eff |-> Effective(b, m, dt),
              cnt |-> Mined(b, m), rw |-> Reward(blk[b].h + 1), sp |-> StakePer(blk[b].h + 1, blk[b].t + dt)])
    /\ UNCHANGED <<vars, ph, cur>>
\* pure function: parent difficulty k * factor scales to any size
Pure ==
    /\ ph = "make" /\ cur.p = 0
    /\ \E k \in {Pick({1, 3, 1000})} : \E n \in {Pick({0, 1, 2, 50, 98, 99, 100, 101, 102, 5000})} : \E r \in {Pick({0, 1})} : \E t \in {Pick(0..200)} :
       LET dt == n * c.cutoff + (IF r = 1 THEN c.cutoff - 1 ELSE 0) IN
       Rec([op |-> "P", d |-> k * c.factor, dt |-> dt, nd |-> Diff(c, k * c.factor, dt), t |-> t, dv |-> Divider(c, t)])
    /\ UNCHANGED <<vars, ph, cur>>
Finish == /\ ph = "make" /\ cur.p = 0 /\ Len(blk) = MaxB /\ ph' = "done" /\ UNCHANGED <<vars, hist, cur>>
          /\ PrintT(<<"TRACE", ToJson(hist)>>)
GNext == Configure \/ Open \/ AddTx \/ Seal \/ Query \/ Pure \/ Finish
GSpec == GInit /\ [][GNext]_gvars
GD01Inv == ph # "cfg" => D01Inv
GW01Inv == ph # "cfg" => W01Inv
=============================================================================

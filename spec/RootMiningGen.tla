--------------------------- MODULE RootMiningGen ---------------------------
EXTENDS RootMining, Json, TLC
VARIABLES hist, ph
gvars == <<vars, hist, ph>>
Pick(S) == RandomElement(S)
Rec(r) == hist' = Append(hist, r)
K == 8
GInit == c = [posw |-> FALSE] /\ blk = <<>> /\ hist = <<>> /\ ph = "cfg"
OneStake(u) == \E s \in {Pick({0, 99, 100, 101, 199, 200, 350, 1000, 5000})} : \E by \in {Pick({0, 1, 1, 2, 2, 3, 3})} : \E e \in {Pick(1..8)} :
    hist' = Append(hist, [s |-> s, by |-> by, ok |-> e # 1])
OneAmt(u) == \E q \in {Pick({0, 1, 7, 1000})} : \E x \in {Pick({0, 0, 3, 50})} : hist' = Append(hist, <<q, x>>)
Draw == ph = "cfg" /\ Len(hist) < 4 * K /\ (IF Len(hist) < 3 * K THEN OneStake(0) ELSE OneAmt(0)) /\ UNCHANGED <<vars, ph>>
Configure ==
    /\ ph = "cfg" /\ Len(hist) = 4 * K
    /\ \E cutoff \in {Pick({1, 7, 40})} : \E factor \in {Pick({2, 10, 1024})} : \E mind \in {Pick({50, 900, 3000})} : \E gend \in {Pick({60, 1000, 5001})} :
       \E epoch \in {Pick({1, 2, 3})} : \E dec \in {Pick({<<1, 2>>, <<1, 3>>, <<1, 1>>})} : \E base \in {Pick({120001, 7777})} :
       \E rate \in {Pick({<<1, 1>>, <<1, 2>>, <<2, 3>>, <<3, 1>>})} : \E win \in {Pick({2, 3, 4, 6})} : \E div \in {Pick({2, 5, 20})} :
       \E posw \in {Pick(1..6)} : \E en \in {Pick({0, 0, 20})} : \E bt \in {Pick({0, 0, 10, 40})} : \E steps \in {Pick({1, 3})} : \E intv \in {Pick({5, 30})} :
         /\ c' = [cutoff |-> cutoff, factor |-> factor, mind |-> mind, gend |-> gend, epoch |-> epoch, num |-> dec[1], den |-> dec[2], base |-> base,
                  rn |-> rate[1], rd |-> rate[2], win |-> win, stake |-> 100, div |-> div, posw |-> posw # 1, enT |-> en, boostT |-> bt, mult |-> 2,
                  steps |-> steps, intv |-> intv,
                  stk |-> [k \in 1..K |-> [m \in Miners |-> hist[3 * (k - 1) + m]]],
                  mq |-> [k \in 1..K |-> hist[3 * K + k][1]], mx |-> [k \in 1..K |-> hist[3 * K + k][2]]]
         /\ blk' = <<Genesis(c')>> /\ hist' = <<[op |-> "C", cfg |-> c']>>
    /\ ph' = "make"
Tops == {b \in Ids : blk[b].h + 2 >= (CHOOSE h \in {blk[x].h : x \in Ids} : \A x \in Ids : blk[x].h <= h)}
Dts == {1, 2, c.cutoff, c.cutoff + 1, 2 * c.cutoff, 2 * c.cutoff - 1, 3 * c.cutoff + 2, 101 * c.cutoff, 5, 30} \ {0}
Sigs(b, m) == {0, 1, 2, 3} \cup {Guard}
Make ==
    /\ ph = "make" /\ Len(blk) < MaxB
    /\ \E w \in {Pick(1..5)} : \E b \in {IF w = 1 THEN Pick(Ids) ELSE Pick(Tops)} : \E m \in {Pick(Miners)} : \E dt \in {Pick(Dts)} :
       \E v \in {Pick(1..3)} : \E sig \in {IF v = 1 THEN Pick(Sigs(b, m)) ELSE StakeAt(b, m).by} : \E n \in {Pick({0, 1, 1, 2})} :
         /\ NextDiff(b, dt) < 20000 /\ blk[b].k + n <= K
         /\ blk' = Append(blk, Block(b, m, dt, sig, n))
         /\ Rec([op |-> "B", id |-> Len(blk) + 1, p |-> b, m |-> m, dt |-> dt, sig |-> sig, k |-> blk[b].k, n |-> n, d |-> NextDiff(b, dt),
                 eff |-> Effective(b, m, dt, sig), q |-> RewardQ(b, n), x |-> RewardX(b, n)])
    /\ UNCHANGED <<c, ph>>
Query ==
    /\ ph = "make" /\ Len(blk) > 1
    /\ \E b \in {Pick(Ids)} : \E m \in {Pick(Miners)} : \E dt \in {Pick(Dts)} : \E v \in {Pick(1..3)} : \E sig \in {IF v = 1 THEN Pick(Sigs(b, m)) ELSE StakeAt(b, m).by} :
         Rec([op |-> "Q", p |-> b, m |-> m, dt |-> dt, sig |-> sig, d |-> NextDiff(b, dt), eff |-> Effective(b, m, dt, sig), tm |-> ToMine(b, m, dt)])
    /\ UNCHANGED <<vars, ph>>
Finish == /\ ph = "make" /\ Len(blk) = MaxB /\ ph' = "done" /\ UNCHANGED <<vars, hist>> /\ PrintT(<<"TRACE", ToJson(hist)>>)
GNext == Draw \/ Configure \/ Make \/ Query \/ Finish
GSpec == GInit /\ [][GNext]_gvars
GD01Inv == ph # "cfg" => D01Inv
GW01Inv == ph # "cfg" => W01Inv
=============================================================================

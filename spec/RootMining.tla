----------------------------- MODULE RootMining -----------------------------
(* The root chain's tree of blocks: required difficulty with guardian and     *)
(* staked-mining reductions, and the reward including the shards' share.      *)
EXTENDS MiningRules, FiniteSets
CONSTANTS MaxB, Miners, Guard
VARIABLES c, blk
vars == <<c, blk>>
Ids == 1..Len(blk)
RECURSIVE Count(_, _, _)
Count(b, m, k) == IF k = 0 \/ b = 0 THEN 0 ELSE (IF blk[b].m = m THEN 1 ELSE 0) + Count(blk[b].p, m, k - 1)
Mined(b, m) == Count(b, m, c.win - 1)
\* stake of m seen from block b: recorded in shard block number blk[b].k, the last one confirmed on b's branch
Rec0 == [s |-> 0, by |-> 0, ok |-> FALSE]
StakeAt(b, m) == IF blk[b].k = 0 THEN Rec0 ELSE c.stk[blk[b].k][m]
Earned(b, m) == StakeAt(b, m).ok /\ Mined(b, m) < Min(StakeAt(b, m).s \div c.stake, c.win)
NextDiff(b, dt) == Diff(c, blk[b].d, dt)
\* sig: 0 nobody, Guard the guardian, otherwise the account that signed
Signed(b, m, sig) == StakeAt(b, m).by # 0 /\ StakeAt(b, m).by = sig
Reduced(b, m, dt, earned) == LET t == blk[b].t + dt d == NextDiff(b, dt) IN
    IF PoSWOn(c, t, blk[b].h + 1) /\ earned THEN d \div Divider(c, t) ELSE d
Effective(b, m, dt, sig) == IF sig = Guard THEN NextDiff(b, dt) \div 1000
                            ELSE Reduced(b, m, dt, Earned(b, m) /\ Signed(b, m, sig))
ToMine(b, m, dt) == Reduced(b, m, dt, Earned(b, m))
RECURSIVE Sum(_, _, _)
Sum(f, i, j) == IF i > j THEN 0 ELSE f[i] + Sum(f, i + 1, j)
\* reward of a block on b that confirms n more shard blocks: default token and another one
RewardQ(b, n) == Decay(c, c.base, blk[b].h + 1) + (Sum(c.mq, blk[b].k + 1, blk[b].k + n) * c.rn) \div c.rd
RewardX(b, n) == (Sum(c.mx, blk[b].k + 1, blk[b].k + n) * c.rn) \div c.rd
Block(b, m, dt, sig, n) == [p |-> b, h |-> blk[b].h + 1, t |-> blk[b].t + dt, m |-> m, d |-> NextDiff(b, dt), k |-> blk[b].k + n,
                            sig |-> sig, n |-> n]
Genesis(cc) == [p |-> 0, h |-> 0, t |-> 0, m |-> 0, d |-> cc.gend, k |-> 0, sig |-> 0, n |-> 0]
D01Inv == \A b \in Ids \ {1} : /\ blk[b].d >= c.mind
                               /\ Decay(c, c.base, blk[b].h) <= Decay(c, c.base, blk[b].h - 1)
\* without guardian and stake, full difficulty; a discounted producer stays within its stake
RECURSIVE InWindow(_, _)
InWindow(b, k) == IF k = 0 \/ b = 0 THEN {} ELSE {b} \cup InWindow(blk[b].p, k - 1)
W01Inv == \A b \in Ids \ {1} : LET p == blk[b].p m == blk[b].m dt == blk[b].t - blk[p].t e == Effective(p, m, dt, blk[b].sig) IN
            e < NextDiff(p, dt) => \/ blk[b].sig = Guard
                                   \/ Cardinality({x \in InWindow(b, c.win) : blk[x].m = m}) * c.stake <= StakeAt(p, m).s
=============================================================================

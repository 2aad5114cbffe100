------------------------------- MODULE Mining -------------------------------
(* A shard's tree of blocks with their producers: required difficulty, staking *)
(* discount over the sliding window, locked stake, and block reward.           *)
EXTENDS MiningRules, FiniteSets
CONSTANTS MaxB, Miners
VARIABLES c, blk          \* configuration, sequence of blocks (1 is genesis)
vars == <<c, blk>>
Ids == 1..Len(blk)

Reward(h) == Decay(c, (c.base * c.rn) \div c.rd, h)
StakePer(h, t) == IF c.decT = 0 \/ t < c.decT THEN c.stake ELSE Decay(c, c.stake, h)

RECURSIVE Count(_, _, _)   \* blocks by m among the k blocks ending at b
Count(b, m, k) == IF k = 0 \/ b = 0 THEN 0 ELSE (IF blk[b].m = m THEN 1 ELSE 0) + Count(blk[b].p, m, k - 1)
Mined(b, m) == Count(b, m, c.win - 1)
Allowed(b, m, t) == Min(blk[b].bal[m] \div StakePer(blk[b].h + 1, t), c.win)
Discount(b, m, t) == PoSWOn(c, t, blk[b].h + 1) /\ Mined(b, m) < Allowed(b, m, t)
NextDiff(b, dt) == Diff(c, blk[b].d, dt)
Effective(b, m, dt) == LET t == blk[b].t + dt d == NextDiff(b, dt)
                       IN  IF Discount(b, m, t) THEN d \div Divider(c, t) ELSE d

\* --- transactions in a block on b by miner m; st = [bal, fee]
Locked(b, miner, a) == IF ~c.posw THEN 0 ELSE (Mined(b, a) + (IF a = miner THEN 1 ELSE 0)) * c.stake
Used(k) == IF k = "call" THEN 21000 ELSE IF k = "create" THEN 53000 ELSE 30000
Share(x) == (x * c.rn) \div c.rd
\* a transaction: [k kind, f sender, to, v value, g gas limit, q gas price]
CanPay(st, t) == st.bal[t.f] >= t.g * t.q + t.v
Fails(st, b, miner, t) == t.v + Locked(b, miner, t.f) > st.bal[t.f] - t.g * t.q
                          /\ Locked(b, miner, t.f) > 0
Add(f, a, x) == IF a \in DOMAIN f THEN [f EXCEPT ![a] = @ + x] ELSE f
Apply(st, b, miner, t) ==
    LET bad  == Fails(st, b, miner, t)
        paid == IF bad THEN t.g * t.q ELSE IF t.k = "x" THEN t.g * t.q + t.v ELSE Used(t.k) * t.q + t.v
        fee  == IF bad THEN Share(t.g * t.q) ELSE IF t.k = "x" THEN Share(21000 * t.q) ELSE Share(Used(t.k) * t.q)
        b1   == Add(st.bal, t.f, -paid)
        b2   == IF ~bad /\ t.k = "call" THEN Add(b1, t.to, t.v) ELSE b1
    IN  [bal |-> Add(b2, miner, fee), fee |-> st.fee + fee, res |-> Append(st.res, ~bad),
         keep |-> st.keep /\ (bad \/ Locked(b, miner, t.f) = 0 \/ b1[t.f] >= Locked(b, miner, t.f))]
Block(b, m, dt, st) == LET h == blk[b].h + 1 IN
    [p |-> b, h |-> h, t |-> blk[b].t + dt, m |-> m, d |-> NextDiff(b, dt), cb |-> Reward(h) + st.fee,
     bal |-> Add(st.bal, m, Reward(h)), res |-> st.res, keep |-> st.keep]
Start(b) == [bal |-> blk[b].bal, fee |-> 0, res |-> <<>>, keep |-> TRUE]
Genesis(cc) == [p |-> 0, h |-> 0, t |-> 0, m |-> 0, d |-> cc.gend, cb |-> 0, bal |-> cc.bal, res |-> <<>>, keep |-> TRUE]

\* --- properties
\* the required difficulty never falls below the minimum, and grows only for blocks that come early
D01Inv == \A b \in Ids \ {1} : LET p == blk[blk[b].p] dt == blk[b].t - p.t IN
            /\ blk[b].d >= c.mind
            /\ (blk[b].d > p.d => dt < c.cutoff \/ p.d < c.mind)
            /\ Reward(blk[b].h) <= Reward(p.h) /\ blk[b].cb >= Reward(blk[b].h)
\* a producer never holds more discounted blocks in a window than its stake allowed, and what a block of its
\* own locks is never sent away by a transfer of that block
RECURSIVE InWindow(_, _)
InWindow(b, k) == IF k = 0 \/ b = 0 THEN {} ELSE {b} \cup InWindow(blk[b].p, k - 1)
W01Inv == \A b \in Ids \ {1} : \A a \in Miners :
            /\ (blk[b].m = a /\ Discount(blk[b].p, a, blk[b].t)
                  => Cardinality({x \in InWindow(b, c.win) : blk[x].m = a}) <= Allowed(blk[b].p, a, blk[b].t))
            /\ blk[b].bal[a] >= 0
            /\ blk[b].keep
=============================================================================

---------------------------- MODULE MiningRules ----------------------------
(* Difficulty, reward decay and staking divisor as functions of height and time.*)
EXTENDS Integers, Sequences
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* difficulty of a block dt seconds after a parent of difficulty d
Diff(c, d, dt) == Max(d + (d \div c.factor) * Max(1 - dt \div c.cutoff, -99), c.mind)
Decay(c, x, h) == LET e == h \div c.epoch IN (x * c.num^e) \div (c.den^e)
\* boosted divisor of the staking discount at time t
Divider(c, t) == IF c.boostT > 0 /\ t >= c.boostT
                 THEN c.div * c.mult^Min((t - c.boostT) \div c.intv + 1, c.steps) ELSE c.div
PoSWOn(c, t, h) == c.posw /\ t >= c.enT /\ h > 0
============================================================================

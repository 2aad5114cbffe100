----------------------------- MODULE ShardMap -----------------------------
(* Which shard an address belongs to (account, cluster/config,               *)
(* core/types/transaction.go). An address key is a chain number and a local  *)
(* key; a chain has a power-of-two number of shards. Everything is stated by *)
(* division and remainder; the code works on packed bits.                    *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS MaxChains, MaxExp, MaxKey
VARIABLES cfg,      \* number of shards of each chain (chain c is entry c + 1)
          k1, k2,   \* two address keys [c, l]
          b         \* a shard [c, s] of the configuration
vars == <<cfg, k1, k2, b>>
Pow2 == {2^e : e \in 0..30}
Chains == 0..(Len(cfg) - 1)
Size(c) == cfg[c + 1]
Shards == UNION {{<<c, s>> : s \in 0..(Size(c) - 1)} : c \in Chains}
Total == LET RECURSIVE S(_)
             S(n) == IF n = 0 THEN 0 ELSE cfg[n] + S(n - 1) IN S(Len(cfg))

Known(k) == k.c \in Chains
Home(k) == <<k.c, k.l % Size(k.c)>>                        \* defined when Known
In(k, sh) == k.c = sh[1] /\ k.l % Size(sh[1]) = sh[2]
Rehomed(k, sh) == [c |-> sh[1], l |-> (k.l \div Size(sh[1])) * Size(sh[1]) + sh[2]]
Diff(x, y) == IF x > y THEN x - y ELSE y - x
Near(d) == d = 0 \/ d \in Pow2
\* n: how many shards exist at the time
Neighbours(n, x, y) == \/ n <= 32
                       \/ x[1] = y[1] /\ Near(Diff(x[2], y[2]))
                       \/ x[1] # y[1] /\ x[2] = y[2] /\ Near(Diff(x[1], y[1]))

Key == [c : 0..MaxChains, l : 0..MaxKey]
Init == /\ cfg \in UNION {[1..n -> {2^e : e \in 0..MaxExp}] : n \in 1..MaxChains}
        /\ k1 \in Key /\ k2 \in {[c |-> 0, l |-> 0]} /\ b \in Shards
Spec == Init /\ [][UNCHANGED vars]_vars
A01Inv == /\ Known(k1) => Cardinality({sh \in Shards : In(k1, sh)}) = 1 /\ In(k1, Home(k1)) /\ Home(k1) \in Shards
          /\ ~Known(k1) => \A sh \in Shards : ~In(k1, sh)
          /\ In(Rehomed(k1, b), b) /\ Home(Rehomed(k1, b)) = b
          /\ (Known(k1) /\ Home(k1) = b) => Rehomed(k1, b) = k1
          /\ Known(k1) => Neighbours(40, b, Home(k1)) = Neighbours(40, Home(k1), b)
===========================================================================

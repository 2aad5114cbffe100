---- MODULE RootChainMC ----
EXTENDS RootChain
TwoShards == {1, 2}
StartHeights == [s \in {1, 2} |-> IF s = 2 THEN 1 ELSE 0]
====

------------------------------ MODULE MiningMC ------------------------------
(* All block trees of a few blocks by two producers, with one transfer each.  *)
EXTENDS Mining
CONSTANTS Win, Dts
Conf == [cutoff |-> 7, factor |-> 10, mind |-> 90, gend |-> 100, epoch |-> 2, num |-> 1, den |-> 2, base |-> 80, rn |-> 1, rd |-> 2,
         win |-> Win, stake |-> 100, div |-> 5, posw |-> TRUE, enT |-> 2, boostT |-> 10, mult |-> 2, steps |-> 2, intv |-> 5, decT |-> 15,
         bal |-> <<250, 120>>]
MCInit == c = Conf /\ blk = <<Genesis(Conf)>>
Txs(b, m) == {[k |-> "call", f |-> f, to |-> 3 - f, v |-> v, g |-> 21000, q |-> 0] :
                f \in Miners, v \in {0, 1, 20, 100, 150} \cup {x \in {blk[b].bal[1] - Locked(b, m, 1)} : x > 0}}
MCNext == /\ Len(blk) < MaxB /\ UNCHANGED c
          /\ \E b \in Ids, m \in Miners, dt \in Dts :
               \/ blk' = Append(blk, Block(b, m, dt, Start(b)))
               \/ \E t \in Txs(b, m) : CanPay(Start(b), t) /\ blk' = Append(blk, Block(b, m, dt, Apply(Start(b), b, m, t)))
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================

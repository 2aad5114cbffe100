------------------------------ MODULE TxPoolMC ------------------------------
(* Exhaustive: one fixed table of transactions, every chain and history.      *)
EXTENDS TxPool
T(a, n, pr, v, tok) == [a |-> a, n |-> n, pr |-> pr, g |-> 21000, v |-> v, tok |-> tok]
Table == <<T(1, 0, 10, 0, 0), T(1, 0, 11, 900000, 0), T(1, 1, 10, 200000, 0), T(1, 2, 2, 0, 1)>>

Seqs == {<<>>, <<1>>, <<2>>, <<3>>, <<1, 3>>, <<4>>}
MInit == Init /\ tr = Table /\ pool = {}
MNext == \/ \E p \in MIds, r \in RIds, s \in Seqs : MakeBlock(p, r, s)
         \/ \E p \in RIds, d \in 1..MaxD, e \in {0} \cup MIds : NewRoot(p, d, e) /\ UNCHANGED <<tr, pool>>
         \/ \E t \in 1..Len(tr) : Submit(<<t>>)
         \/ \E m \in MIds \ kM : AcceptableM(m) /\ TakeMinor(m)
         \/ \E r \in RIds \ kR : AcceptableR(r) /\ TakeRoot(r)
MSpec == MInit /\ [][MNext]_pvars
=============================================================================

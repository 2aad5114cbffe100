---------------------------- MODULE ChainQueryMC ----------------------------
(* Every small history of ChainQuery.                                         *)
EXTENDS ChainQuery

T(f, to, logs, ok) == [f |-> f, to |-> to, far |-> FALSE, tok |-> 1, logs |-> logs, ok |-> ok]
TxChoices == {<<>>,
              <<T(1, 3, <<<<1>>, <<>>>>, TRUE)>>,
              <<T(1, 2, <<>>, TRUE), T(1, 4, <<<<2, 1>>>>, FALSE), T(2, 4, <<<<1, 2>>>>, TRUE)>>}
Dep(id, to, logs) == [id |-> id, to |-> to, tok |-> 1, logs |-> logs, ok |-> TRUE]
InChoices(id, p) == {[coin |-> 0, xs |-> <<>>], [coin |-> 1, xs |-> <<>>]}
    \cup IF rb[p].h = 0 THEN {} ELSE {[coin |-> 2, xs |-> <<Dep(id * 10 + 1, 3, <<<<2>>>>), Dep(id * 10 + 2, 1, <<>>)>>]}

QInit == Init /\ in = <<[coin |-> 0, xs |-> <<>>]>>
QNext == \/ \E p \in MIds : \E r \in RIds : \E tx \in TxChoices : NewMinor(p, r, tx) /\ UNCHANGED in
         \/ \E p \in RIds : \E e \in {0} \cup MIds : \E d \in 1..MaxD :
               /\ NewRoot(p, d, e)
               /\ \E i \in InChoices(Len(rb) + 1, p) : in' = Append(in, i)
         \/ (\E m \in MIds \ {1} : m \notin kM /\ DeliverMinor(m)) /\ UNCHANGED in
         \/ (\E r \in RIds \ {1} : r \notin kR /\ DeliverRoot(r)) /\ UNCHANGED in
QSpec == QInit /\ [][QNext]_<<vars, in>>
=============================================================================

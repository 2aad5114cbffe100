--------------------------- MODULE StateJournal ---------------------------
(* The mechanism: live objects over a stored trie, balances as a cache over  *)
(* an optional token trie, and an undo journal. Checked to show exactly the  *)
(* values of StateDB in every reachable state (S01).                         *)
EXTENDS StateDB
CONSTANTS MaxOps, MaxV
VARIABLES w, saved,          \* StateDB: the value and the stack of snapshots
          obj, tr, jr, cnt, revs, fd, ops
vars == <<w, saved, obj, tr, jr, cnt, revs, fd, ops>>

\* balances of an object: cache over trie; NONE = not cached
NONE == 0 - 1
OBlank == [n |-> 0, c |-> 0, ca |-> [t \in Tok |-> NONE], tt |-> Zero(Tok), tri |-> FALSE, ds |-> [k \in Slot |-> NONE], or |-> Zero(Slot), d |-> FALSE, del |-> FALSE]
Nil == [OBlank EXCEPT !.n = NONE]
OBal(o, t) == IF o.ca[t] # NONE THEN o.ca[t] ELSE IF o.tri THEN o.tt[t] ELSE 0
OSto(o, k) == IF o.ds[k] # NONE THEN o.ds[k] ELSE o.or[k]
NZ(o) == Cardinality({t \in Tok : o.ca[t] # NONE /\ o.ca[t] > 0})
OEmpty(o) == o.n = 0 /\ o.c = 0 /\ ~o.tri /\ NZ(o) = 0

\* the live object if there is one, else what the trie holds
Load(x) == IF obj[x] # Nil THEN (IF obj[x].del THEN Nil ELSE obj[x]) ELSE tr[x]
Addr(e) == e.x
J(e) == jr' = Append(jr, e)
Dirt(x, k) == cnt' = [cnt EXCEPT ![x] = @ + k]

CInit == /\ obj = [x \in Acc |-> Nil] /\ tr = [x \in Acc |-> Nil] /\ jr = <<>> /\ cnt = Zero(Acc) /\ revs = <<>> /\ fd = {}
Init == w = W0 /\ saved = <<>> /\ ops = 0 /\ CInit

\* set field via function f with undo entry e on the (created if missing) object
Upd(x, e, f(_)) ==
    LET o == Load(x)  b == IF o = Nil THEN OBlank ELSE o
        pre == IF o = Nil THEN <<[k |-> "new", x |-> x]>> ELSE <<>>
    IN /\ obj' = [obj EXCEPT ![x] = f(b)]
       /\ jr' = jr \o pre \o (IF e.k = "" THEN <<>> ELSE <<[e EXCEPT !.o = b]>>)
       /\ Dirt(x, Len(pre) + (IF e.k = "" THEN 0 ELSE 1))
       /\ UNCHANGED <<tr, revs, fd>>
E(k, x) == [k |-> k, x |-> x, o |-> Nil]

DoBal(x, t, v) == /\ w' = SetBal(w, x, t, v) /\ Upd(x, E("bal", x), LAMBDA o : [o EXCEPT !.ca[t] = v])
\* reading a balance fills the cache from the trie
DoRead(x, t) == /\ Load(x) # Nil /\ Load(x).tri /\ obj' = [obj EXCEPT ![x] = [Load(x) EXCEPT !.ca[t] = OBal(Load(x), t)]]
                /\ UNCHANGED <<w, jr, cnt, tr, revs, fd>>
DoNonce(x, v) == /\ w' = SetNonce(w, x, v) /\ Upd(x, E("nonce", x), LAMBDA o : [o EXCEPT !.n = v])
DoStore(x, k, v) == /\ w' = SetStore(w, x, k, v)
                    /\ IF Load(x) # Nil /\ OSto(Load(x), k) = v THEN UNCHANGED <<obj, jr, cnt, tr, revs, fd>>
                       ELSE IF Load(x) = Nil /\ v = 0 THEN Upd(x, E("", x), LAMBDA o : o)
                       ELSE Upd(x, E("sto", x), LAMBDA o : [o EXCEPT !.ds[k] = v])
DoCreate(x) ==
    LET o == Load(x)  nb == IF o = Nil THEN [OBlank EXCEPT !.n = 1] ELSE [OBlank EXCEPT !.n = 1, !.ca = o.ca, !.tt = o.tt, !.tri = o.tri]
    IN /\ w' = Create(w, x)
       /\ obj' = [obj EXCEPT ![x] = nb]
       /\ jr' = jr \o <<IF o = Nil THEN [k |-> "new", x |-> x] ELSE [k |-> "reset", x |-> x, o |-> o]>> \o <<[k |-> "nonce", x |-> x, o |-> OBlank]>>
       /\ Dirt(x, IF o = Nil THEN 2 ELSE 1)
       /\ UNCHANGED <<tr, revs, fd>>
DoDestroy(x) ==
    /\ Load(x) # Nil /\ w' = Destroy(w, x)
    /\ Upd(x, E("kill", x), LAMBDA o : [o EXCEPT !.d = TRUE, !.ca = [t \in Tok |-> NONE], !.tt = Zero(Tok), !.tri = FALSE])

DoSnap == /\ Len(saved) < 2 /\ saved' = Append(saved, w) /\ revs' = Append(revs, Len(jr)) /\ UNCHANGED <<w, obj, tr, jr, cnt, fd>>

\* undoing one entry: exactly the fields that kind of entry saved
Undo(os, e) ==
    CASE e.k = "new" -> [os EXCEPT ![e.x] = Nil]
      [] e.k = "reset" -> [os EXCEPT ![e.x] = e.o]
      [] e.k = "bal" -> [os EXCEPT ![e.x].ca = e.o.ca]
      [] e.k = "nonce" -> [os EXCEPT ![e.x].n = e.o.n]
      [] e.k = "sto" -> [os EXCEPT ![e.x].ds = [k \in Slot |-> IF os[e.x].ds[k] = NONE THEN NONE ELSE OSto(e.o, k)]]
      [] e.k = "kill" -> [os EXCEPT ![e.x].d = e.o.d, ![e.x].ca = e.o.ca, ![e.x].tt = e.o.tt, ![e.x].tri = e.o.tri]
RECURSIVE UndoTo(_, _, _, _)
UndoTo(os, c, j, n) == IF Len(j) = n THEN <<os, c>> ELSE
    LET e == j[Len(j)] IN UndoTo(Undo(os, e), IF e.k = "reset" THEN c ELSE [c EXCEPT ![e.x] = @ - 1], SubSeq(j, 1, Len(j) - 1), n)
DoRevert(i) ==
    /\ i \in 1..Len(saved) /\ w' = saved[i] /\ saved' = SubSeq(saved, 1, i - 1)
    /\ LET r == UndoTo(obj, cnt, jr, revs[i]) IN obj' = r[1] /\ cnt' = r[2]
    /\ jr' = SubSeq(jr, 1, revs[i]) /\ revs' = SubSeq(revs, 1, i - 1) /\ UNCHANGED <<tr, fd>>

\* writing an object: dirty storage and cached balances go to the tries
Flush(o) == LET tri == o.tri \/ NZ(o) > Threshold IN
    [o EXCEPT !.or = [k \in Slot |-> OSto(o, k)], !.ds = [k \in Slot |-> NONE], !.tri = tri,
              !.tt = IF tri THEN [t \in Tok |-> OBal(o, t)] ELSE o.tt,
              !.ca = IF tri THEN [t \in Tok |-> NONE] ELSE o.ca]
Stored(o) == IF o.tri THEN o ELSE [o EXCEPT !.ca = [t \in Tok |-> IF o.ca[t] = 0 THEN NONE ELSE o.ca[t]]]
Gone(o) == o.d \/ OEmpty(o)
Write(set) == /\ obj' = [x \in Acc |-> IF x \notin set \/ obj[x] = Nil THEN obj[x] ELSE IF Gone(obj[x]) THEN [obj[x] EXCEPT !.del = TRUE] ELSE Flush(obj[x])]
              /\ tr' = [x \in Acc |-> IF x \notin set \/ obj[x] = Nil THEN tr[x] ELSE IF Gone(obj[x]) THEN Nil ELSE Stored(Flush(obj[x]))]
              /\ jr' = <<>> /\ cnt' = Zero(Acc) /\ revs' = <<>> /\ saved' = <<>>
Dirty == {x \in Acc : cnt[x] > 0}
DoEndTx == w' = EndTx(w) /\ Write(Dirty) /\ fd' = fd \cup Dirty
DoCommit == w' = Commit(w) /\ Write(Dirty \cup fd) /\ fd' = {}
DoReopen == /\ Dirty = {} /\ fd = {} /\ jr = <<>> /\ obj' = [x \in Acc |-> Nil]
            /\ w' = w /\ saved' = <<>> /\ revs' = <<>> /\ UNCHANGED <<tr, jr, cnt, fd>>

Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ /\ UNCHANGED saved
              /\ \E x \in Acc : \/ \E t \in Tok : (\E v \in 0..MaxV : DoBal(x, t, v)) \/ DoRead(x, t)
                                \/ \E v \in 0..1 : DoNonce(x, v)
                                \/ \E k \in Slot : \E v \in 0..1 : DoStore(x, k, v)
                                \/ DoCreate(x) \/ DoDestroy(x)
           \/ DoSnap \/ (\E i \in 1..2 : DoRevert(i)) \/ DoEndTx \/ DoCommit \/ DoReopen
Spec == Init /\ [][Next]_vars

View(o) == IF o = Nil THEN None ELSE [ex |-> TRUE, n |-> o.n, c |-> o.c, b |-> [t \in Tok |-> OBal(o, t)], s |-> [k \in Slot |-> OSto(o, k)], o |-> o.or, d |-> o.d, t |-> o.tri]
S01Inv == /\ \A x \in Acc : View(Load(x)) = w.acc[x]
          /\ Dirty = w.dirty
===========================================================================

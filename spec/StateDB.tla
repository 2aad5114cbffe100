----------------------------- MODULE StateDB -----------------------------
(* Account state as its users see it (core/state, core/types/token.go): a    *)
(* working state is a value, a snapshot is a saved copy of that value, and   *)
(* rolling back restores the saved value. Nothing here mentions journals,    *)
(* caches, object maps or tries: those are StateJournal's subject.           *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Acc, Tok, Slot,
          Threshold     \* more non-zero tokens than this at the end of a transaction: stored as a trie from then on

Zero(S) == [x \in S |-> 0]
\* n nonce, c code, b balances, s storage, o storage at the start of the transaction,
\* d destroyed in this transaction, t balances stored as a trie, k number of logs
None == [ex |-> FALSE, n |-> 0, c |-> 0, b |-> Zero(Tok), s |-> Zero(Slot), o |-> Zero(Slot), d |-> FALSE, t |-> FALSE]
Fresh == [None EXCEPT !.ex = TRUE]
Empty(a) == a.n = 0 /\ a.c = 0 /\ ~a.t /\ \A t \in Tok : a.b[t] = 0

\* dirty: changed in this transaction; fdirty: changed in earlier transactions since the last commit
W0 == [acc |-> [x \in Acc |-> None], dirty |-> {}, fdirty |-> {}, refund |-> 0, logs |-> 0]

Obj(w, x) == IF w.acc[x].ex THEN w.acc[x] ELSE Fresh     \* every setter creates a missing account
Put(w, x, a) == [w EXCEPT !.acc[x] = a, !.dirty = @ \cup {x}]
SetBal(w, x, t, v) == Put(w, x, [Obj(w, x) EXCEPT !.b[t] = v])
AddBal(w, x, t, v) == Put(w, x, [Obj(w, x) EXCEPT !.b[t] = @ + v])              \* v = 0 only touches the account
SubBal(w, x, t, v) == IF v = 0 /\ w.acc[x].ex THEN w ELSE Put(w, x, [Obj(w, x) EXCEPT !.b[t] = @ - v])
SetNonce(w, x, v) == Put(w, x, [Obj(w, x) EXCEPT !.n = v])
SetCode(w, x, v) == Put(w, x, [Obj(w, x) EXCEPT !.c = v])
SetStore(w, x, k, v) == IF w.acc[x].ex /\ w.acc[x].s[k] = v THEN w ELSE Put(w, x, [Obj(w, x) EXCEPT !.s[k] = v])
\* contract creation: a new account object with nonce 1 that keeps the address's balances
Create(w, x) == Put(w, x, [Fresh EXCEPT !.n = 1, !.b = w.acc[x].b, !.t = w.acc[x].t])
Destroy(w, x) == IF w.acc[x].ex THEN Put(w, x, [w.acc[x] EXCEPT !.d = TRUE, !.b = Zero(Tok), !.t = FALSE]) ELSE w
AddRefund(w, v) == [w EXCEPT !.refund = @ + v]
AddLog(w) == [w EXCEPT !.logs = @ + 1]

Settle(a) == IF a.d \/ Empty(a) THEN None
             ELSE [a EXCEPT !.o = a.s, !.t = a.t \/ Cardinality({t \in Tok : a.b[t] > 0}) > Threshold]
\* the end of a transaction
EndTx(w) == [w EXCEPT !.acc = [x \in Acc |-> IF x \in w.dirty THEN Settle(w.acc[x]) ELSE w.acc[x]],
                      !.fdirty = @ \cup w.dirty, !.dirty = {}, !.refund = 0]
\* writing the state out
Commit(w) == [w EXCEPT !.acc = [x \in Acc |-> IF x \in w.dirty \cup w.fdirty THEN Settle(w.acc[x]) ELSE w.acc[x]],
                       !.fdirty = {}, !.dirty = {}, !.refund = 0]
\* a copy is complete and independent; its pending changes are settled when it is committed
CopyOf(w) == [w EXCEPT !.fdirty = @ \cup w.dirty, !.dirty = {}]
\* a state opened from a committed root
Opened(w) == [w EXCEPT !.logs = 0]

Read(a) == [ex |-> a.ex, n |-> a.n, c |-> a.c, b |-> a.b, s |-> a.s, o |-> a.o, d |-> a.d]
Reads(w) == [acc |-> [x \in Acc |-> Read(w.acc[x])], refund |-> w.refund, logs |-> w.logs]
==========================================================================

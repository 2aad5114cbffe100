------------------------------- MODULE TxPool -------------------------------
(* The transaction pool of a shard on top of ShardChain: what it holds after  *)
(* every submission, head change and reorganisation, which of that is         *)
(* executable, and what each submission is answered.  tr is the table of all  *)
(* transactions anybody ever signs; blocks list indices of it.  The pool's    *)
(* reaction to a head change is asynchronous in the code: ResetPool is the    *)
(* atomic step, Outcomes the possible results when submissions race with it.  *)
EXTENDS ShardChain

CONSTANTS Accts, Fund0, Fund1, \* balances in the genesis block: default token, other token
          MinPrice,            \* least gas price the pool takes
          Bump                 \* percentage a replacement must add

VARIABLES tr,    \* [a |-> account, n |-> nonce, pr |-> gas price, g |-> gas limit, v |-> value, tok |-> 0 or 1]
          pool   \* indices held

pvars == <<vars, tr, pool>>

Used == 21000    \* what a plain transfer consumes

RECURSIVE Sum(_, _)
Sum(S, tok) == IF S = {} THEN 0
               ELSE LET t == CHOOSE x \in S : TRUE
                    IN (IF tr[t].tok = tok THEN tr[t].v ELSE 0) + (IF tok = 0 THEN Used * tr[t].pr ELSE 0)
                       + Sum(S \ {t}, tok)
TxOf(b) == {mb[b].tx[i] : i \in 1..Len(mb[b].tx)}
RECURSIVE CTx(_)
CTx(b) == IF b = 0 THEN {} ELSE TxOf(b) \cup CTx(mb[b].p)
OwnTx(S, a) == {t \in S : tr[t].a = a}

Cost(t, tok) == (IF tr[t].tok = tok THEN tr[t].v ELSE 0) + (IF tok = 0 THEN tr[t].g * tr[t].pr ELSE 0)
\* S: what the account already executed
CanPay(S, t) == /\ Fund0 - Sum(S, 0) >= Cost(t, 0)
                /\ Fund1 - Sum(S, 1) >= Cost(t, 1)
\* ... and a block may hold it: nothing is transferred in a token the sender has none of
Valid(S, t) == CanPay(S, t) /\ (tr[t].tok = 1 => Fund1 - Sum(S, 1) > 0)
\* t can be executed by an account that executed S, at once or once the nonces before it are used
Alive(S, t) == tr[t].n >= Cardinality(S) /\ CanPay(S, t)

\* P: held; C: transactions on the head's chain
Takes(C, t) == LET S == OwnTx(C, tr[t].a) IN tr[t].pr >= MinPrice /\ Alive(S, t) /\ Valid(S, t)
Rival(P, t) == {u \in P : tr[u].a = tr[t].a /\ tr[u].n = tr[t].n}
Beats(t, u) == tr[t].pr > tr[u].pr /\ tr[t].pr >= (tr[u].pr * (100 + Bump)) \div 100
AddOne(P, C, t) ==
    IF t \in P THEN [p |-> P, r |-> "dup"]
    ELSE IF ~Takes(C, t) THEN [p |-> P, r |-> "bad"]
    ELSE IF \E u \in Rival(P, t) : ~Beats(t, u) THEN [p |-> P, r |-> "dup"]
    ELSE [p |-> (P \ Rival(P, t)) \cup {t}, r |-> "ok"]
RECURSIVE AddAll(_, _, _)
AddAll(P, C, s) == IF s = <<>> THEN [p |-> P, r |-> <<>>]
                   ELSE LET x == AddOne(P, C, Head(s)) y == AddAll(x.p, C, Tail(s))
                        IN [p |-> y.p, r |-> <<x.r>> \o y.r]

\* the head moves from the chain holding O to the one holding C: what fell out comes back, what cannot run any more leaves
RECURSIVE AddSet(_, _, _)
AddSet(P, C, S) == IF S = {} THEN P
                   ELSE LET t == CHOOSE x \in S : TRUE IN AddSet(AddOne(P, C, t).p, C, S \ {t})
Keep(P, C) == {t \in P : Alive(OwnTx(C, tr[t].a), t)}
ResetPool(P, O, C) == Keep(AddSet(P, C, O \ C), C)

\* the executable part: from the next nonce on without a gap
RECURSIVE Run(_, _, _)
Run(P, a, n) == LET S == {t \in P : tr[t].a = a /\ tr[t].n = n} IN IF S = {} THEN <<>> ELSE <<CHOOSE t \in S : TRUE>> \o Run(P, a, n + 1)
Exec(P, C, a) == Run(P, a, Cardinality(OwnTx(C, a)))
\* what a block built now would take: the part of it that pays for itself one after the other
RECURSIVE Paying(_, _)
Paying(S, q) == IF q = <<>> \/ ~Valid(S, Head(q)) THEN <<>> ELSE <<Head(q)>> \o Paying(S \cup {Head(q)}, Tail(q))
Mined(P, C, a) == Paying(OwnTx(C, a), Exec(P, C, a))

\* submissions T (one at a time) racing with a head change from O to C ("reset" not in the left set: it has happened)
RECURSIVE Outcomes(_, _, _, _, _)
Outcomes(P, O, C, done, T) ==
    (IF T = {} /\ done THEN {[p |-> P, ok |-> {}]} ELSE {})
    \cup (IF done THEN {} ELSE Outcomes(ResetPool(P, O, C), O, C, TRUE, T))
    \cup UNION {LET x == AddOne(P, IF done THEN C ELSE O, t)
                IN {[p |-> y.p, ok |-> y.ok \cup (IF x.r = "ok" THEN {t} ELSE {})] : y \in Outcomes(x.p, O, C, done, T \ {t})}
                : t \in T}

-----------------------------------------------------------------------------
\* transactions a block on p may hold: in nonce order and payable
RECURSIVE Fits(_, _)
Fits(S, s) == IF s = <<>> THEN TRUE
              ELSE LET t == Head(s) own == OwnTx(S, tr[t].a)
                   IN tr[t].n = Cardinality(own) /\ Valid(own, t) /\ Fits(S \cup {t}, Tail(s))

PInit == Init /\ tr = <<>> /\ pool = {}
MakeBlock(p, r, s) == Fits(CTx(p), s) /\ NewMinor(p, r, s) /\ UNCHANGED <<tr, pool>>
Submit(s) == /\ pool' = AddAll(pool, CTx(tip), s).p
             /\ UNCHANGED <<vars, tr>>
TakeMinor(m) == DeliverMinor(m) /\ pool' = ResetPool(pool, CTx(tip), CTx(tip')) /\ UNCHANGED tr
TakeRoot(r) == DeliverRoot(r) /\ pool' = ResetPool(pool, CTx(tip), CTx(tip')) /\ UNCHANGED tr

-----------------------------------------------------------------------------
PoolOK ==
    LET C == CTx(tip) IN
    /\ \A t, u \in pool : tr[t].a = tr[u].a /\ tr[t].n = tr[u].n => t = u      \* one per nonce
    /\ pool \cap C = {}                                                          \* included ones are gone
    /\ \A t \in pool : Alive(OwnTx(C, tr[t].a), t)
    /\ \A a \in Accts : LET e == Exec(pool, C, a) IN
          /\ \A i \in 1..Len(e) : tr[e[i]].n = Cardinality(OwnTx(C, a)) + i - 1  \* gap-free from the next nonce
          /\ \A t \in OwnTx(pool, a) : (\A n \in Cardinality(OwnTx(C, a))..tr[t].n : \E u \in OwnTx(pool, a) : tr[u].n = n)
                                        => \E i \in 1..Len(e) : e[i] = t         \* nothing executable is left waiting
\* what a reorganisation drops comes back unless it cannot run or something better took its place
Returns == [][\A t \in CTx(tip) \ CTx(tip') : Takes(CTx(tip'), t) => Rival(pool', t) # {}]_pvars
\* a transaction only leaves by being included, replaced by a better one, or becoming unable to run
Leaves == [][\A t \in pool \ pool' : \/ t \in CTx(tip')
                                     \/ ~Alive(OwnTx(CTx(tip'), tr[t].a), t)
                                     \/ \E u \in Rival(pool', t) : Beats(u, t)]_pvars
=============================================================================

----------------------------- MODULE ChainQuery -----------------------------
(* What a user may ask one shard about its history: logs over a range of      *)
(* heights, an account's transactions, all transactions, receipts.  Every     *)
(* answer is a function of the head's ancestry in ShardChain: a block holds   *)
(* the deposits of the root blocks it takes in (executed first) and then its  *)
(* own transactions.                                                          *)
EXTENDS ShardChain

\* A transaction: [f, to, far, tok, logs, ok]; f, to: 1..2 accounts, 3..4 contracts, 0: a contract is created;
\* logs: the topic lists of the logs emitted by the called contract, in order; ok: FALSE reverts.
\* A root block carries besides ShardChain's fields (variable in): what it brings this shard,
\* [coin |-> receiver or 0, xs |-> <<deposits>>]; a deposit is [id, to, tok, logs, ok].
VARIABLE in

RECURSIVE RPath(_, _)                \* root blocks after a up to r, oldest first
RPath(a, r) == IF r = a \/ r = 0 THEN <<>> ELSE Append(RPath(a, rb[r].p), r)
RECURSIVE Flat(_, _)
Flat(p, k) == IF k > Len(p) THEN <<>>
              ELSE <<[root |-> TRUE, rb |-> p[k], k |-> 0, d |-> [to |-> in[p[k]].coin, tok |-> 1, logs |-> <<>>, ok |-> TRUE]]>>
                   \o [j \in 1..Len(in[p[k]].xs) |-> [root |-> FALSE, rb |-> p[k], k |-> j, d |-> in[p[k]].xs[j]]]
                   \o Flat(p, k + 1)
\* the genesis block takes in nothing, the first block starts with the root genesis
Deposits(m) == IF mb[m].p = 0 THEN <<>> ELSE Flat(RPath(IF mb[m].h = 1 THEN 0 ELSE mb[mb[m].p].r, mb[m].r), 1)

\* ------------------------------------------------------------------- logs
\* what one execution adds to a block's logs; x: position of the transaction
Emit(to, logs, ok, x) == IF ok THEN [i \in 1..Len(logs) |-> [c |-> to, t |-> logs[i], x |-> x]] ELSE <<>>
RECURSIVE DepLogs(_, _, _)
DepLogs(d, k, n) == IF k > Len(d) THEN <<>> ELSE Emit(d[k].d.to, d[k].d.logs, d[k].d.ok, n + k - 1) \o DepLogs(d, k + 1, n)
RECURSIVE TxLogs(_, _)
TxLogs(txs, k) == IF k > Len(txs) THEN <<>>
                  ELSE (IF txs[k].far THEN <<>> ELSE Emit(txs[k].to, txs[k].logs, txs[k].ok, k - 1)) \o TxLogs(txs, k + 1)
\* a block's logs: the transactions' before the deposits', numbered in order of execution (deposits first)
BlockLogs(m) ==
    LET txs == mb[m].tx
        dl == DepLogs(Deposits(m), 1, Len(txs))
        tl == TxLogs(txs, 1)
    IN  [i \in 1..(Len(tl) + Len(dl)) |->
            IF i <= Len(tl) THEN [m |-> m, c |-> tl[i].c, t |-> tl[i].t, x |-> tl[i].x, i |-> Len(dl) + i - 1]
            ELSE [m |-> m, c |-> dl[i - Len(tl)].c, t |-> dl[i - Len(tl)].t, x |-> dl[i - Len(tl)].x, i |-> i - Len(tl) - 1]]

\* adrs: a set of contracts (empty: any); tops: for each position a set of topics (empty: any)
Matches(l, adrs, tops) ==
    /\ adrs = {} \/ l.c \in adrs
    /\ Len(tops) <= Len(l.t)
    /\ \A i \in 1..Len(tops) : tops[i] = {} \/ l.t[i] \in tops[i]
RECURSIVE LogsIn(_, _, _, _, _)
LogsIn(t, a, b, adrs, tops) ==
    IF a > b THEN <<>> ELSE SelectSeq(BlockLogs(At(t, a)), LAMBDA l : Matches(l, adrs, tops)) \o LogsIn(t, a + 1, b, adrs, tops)
\* a range that ends above the head cannot be answered
Answer(t, a, b, adrs, tops) == IF a <= b /\ b > mb[t].h THEN [err |-> TRUE, l |-> <<>>] ELSE [err |-> FALSE, l |-> LogsIn(t, a, b, adrs, tops)]
\* one block, named by its hash
BlockAnswer(t, m, adrs, tops) == IF m \in MChain(t) THEN Answer(t, mb[m].h, mb[m].h, adrs, tops) ELSE [err |-> TRUE, l |-> <<>>]

\* ---------------------------------------------------------------- history
\* newest first: [m |-> block, k |-> "tx" / "dep", x |-> index]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
Hit(a, e) == a = 0 \/ a \in e.who
Entries(m) ==
    LET d == Deposits(m) txs == mb[m].tx
    IN  [i \in 1..(Len(d) + Len(txs)) |->
           IF i <= Len(d) THEN [m |-> m, k |-> "dep", x |-> i - 1, tok |-> d[i].d.tok, root |-> d[i].root, id |-> IF d[i].root THEN d[i].rb ELSE d[i].d.id, who |-> {d[i].d.to} \ {0}]
           ELSE LET t == txs[i - Len(d)] IN
                [m |-> m, k |-> "tx", x |-> i - Len(d) - 1, tok |-> t.tok, root |-> FALSE, id |-> 0,
                 who |-> {t.f} \cup (IF t.to = 0 \/ t.far THEN {} ELSE {t.to})]]
\* a = 0: every transaction (root chain rewards are not transactions); tok = 0: any token
Listed(e, a, tok) == /\ IF a = 0 THEN ~e.root ELSE a \in e.who
                     /\ tok = 0 \/ e.tok = tok
RECURSIVE History(_, _, _)
History(t, a, tok) == IF t = 0 THEN <<>>
                      ELSE Rev(SelectSeq(Entries(t), LAMBDA e : Listed(e, a, tok))) \o History(mb[t].p, a, tok)
RECURSIVE Pages(_, _)
Pages(s, n) == IF Len(s) <= n THEN <<s>> ELSE <<SubSeq(s, 1, n)>> \o Pages(SubSeq(s, n + 1, Len(s)), n)

\* ------------------------------------------------------------ log feed
RECURSIVE Concat(_, _)
Concat(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Concat(s, k + 1)
Feed(t) == [i \in 1..(mb[t].h + 1) |-> BlockLogs(At(t, i - 1))]

-----------------------------------------------------------------------------
\* ------------------------------------------------------------- properties
Ranges == {<<a, b>> \in (0..mb[tip].h) \X (0..mb[tip].h) : a <= b}
Conds == {<<{}, <<>>>>, <<{3}, <<>>>>, <<{}, <<{1}>>>>, <<{3, 4}, <<{}, {2}>>>>, <<{}, <<{}>>>>}
Ids(s) == {<<s[i].m, s[i].i>> : i \in 1..Len(s)}
\* every answer holds each matching log of the range once, and a split range gives the same answer
LogsExact == \A r \in Ranges : \A c \in Conds :
    LET s == LogsIn(tip, r[1], r[2], c[1], c[2])
    IN  /\ Cardinality(Ids(s)) = Len(s)
        /\ \A m \in MChain(tip) : \A j \in 1..Len(BlockLogs(m)) :
              LET l == BlockLogs(m)[j]
              IN  (<<m, l.i>> \in Ids(s)) <=> (mb[m].h \in r[1]..r[2] /\ Matches(l, c[1], c[2]))
        /\ \A h \in r[1]..r[2] : s = LogsIn(tip, r[1], h, c[1], c[2]) \o LogsIn(tip, h + 1, r[2], c[1], c[2])
\* positions within a block are the numbers 0, 1, ... , each once
Numbered == \A m \in MIds : {BlockLogs(m)[j].i : j \in 1..Len(BlockLogs(m))} = 0..(Len(BlockLogs(m)) - 1)
\* pages put together are the history, which lists each canonical entry once, newest first
PagesExact == \A a \in 0..4 : \A n \in 1..3 :
    LET s == History(tip, a, 0)
    IN  /\ Concat(Pages(s, n), 1) = s
        /\ \A i \in 1..Len(s) : \A j \in 1..Len(s) : i < j => mb[s[i].m].h >= mb[s[j].m].h /\ s[i] # s[j]
\* all deposits of a chain: those of its root blocks, each once, in order
RECURSIVE AllDeposits(_)
AllDeposits(m) == IF m = 0 THEN <<>> ELSE AllDeposits(mb[m].p) \o Deposits(m)
DepositsOnce == \A m \in MIds \ {1} : AllDeposits(m) = Flat(RPath(0, mb[m].r), 1)
=============================================================================

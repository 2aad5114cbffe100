----------------------------- MODULE BlockRules -----------------------------
(* What a shard block claims about itself, relative to what its parent and    *)
(* its own content imply, and which claims are acceptable.  A deviation of 0   *)
(* (or TRUE) is the implied value.                                             *)
EXTENDS Integers, FiniteSets
ExtraLimit == 1024
Implied == [ver   |-> 0,      \* header version
            dh    |-> 1,      \* height above the parent
            br    |-> TRUE,   \* branch is the shard's
            par   |-> TRUE,   \* parent is known
            dt    |-> 1,      \* seconds after the parent
            far   |-> FALSE,  \* beyond the accepted clock drift
            ex    |-> 5,      \* bytes of extra data
            gl    |-> 0,      \* gas limit
            xgl   |-> 0,      \* cross-shard gas limit
            meta  |-> TRUE,   \* header commits to the meta data
            txh   |-> TRUE,   \* meta data commit to the transactions
            body  |-> "same", \* transactions carried in the body
            txs   |-> "run",  \* transactions committed to
            cb    |-> TRUE,   \* reward address lies in the shard
            gas   |-> 0, xgas |-> 0,  \* gas used
            bloom |-> TRUE, rcpt |-> TRUE, root |-> TRUE,
            cur1  |-> 0, cur2 |-> 0, cur3 |-> 0,  \* receive cursor
            amt   |-> 0, tok  |-> 0,  \* reward, reward in another token
            pr    |-> "ok"]   \* root block depended on
Accept(c) == /\ c.ver = 0 /\ c.dh = 1 /\ c.br /\ c.par /\ c.dt > 0 /\ ~c.far /\ c.ex <= ExtraLimit
             /\ c.gl = 0 /\ c.xgl = 0 /\ c.meta /\ c.txh /\ c.body = "same" /\ c.txs = "run" /\ c.cb
             /\ c.gas = 0 /\ c.xgas = 0 /\ c.bloom /\ c.rcpt /\ c.root
             /\ c.cur1 = 0 /\ c.cur2 = 0 /\ c.cur3 = 0 /\ c.amt = 0 /\ c.tok = 0 /\ c.pr = "ok"
\* the deviations tried, as <<field, value>>; the body ones need a transaction
Deviations == {<<"ver", 1>>, <<"dh", 0>>, <<"dh", 2>>, <<"br", FALSE>>, <<"par", FALSE>>, <<"dt", 0>>, <<"dt", -1>>, <<"far", TRUE>>,
               <<"ex", ExtraLimit + 1>>, <<"gl", 1>>, <<"gl", -1>>, <<"xgl", 1>>, <<"xgl", -1>>, <<"meta", FALSE>>, <<"txh", FALSE>>,
               <<"txs", "net">>, <<"txs", "shard">>, <<"txs", "chain">>, <<"txs", "sig">>, <<"txs", "broke">>, <<"txs", "future">>, <<"txs", "gas">>, <<"txs", "big">>,
               <<"cb", FALSE>>, <<"gas", 1>>, <<"gas", -1>>, <<"xgas", 1>>,
               <<"bloom", FALSE>>, <<"rcpt", FALSE>>, <<"root", FALSE>>, <<"cur1", 1>>, <<"cur1", -1>>, <<"cur2", 1>>, <<"cur3", 1>>, <<"amt", 1>>, <<"amt", -1>>,
               <<"tok", 1>>, <<"pr", "unknown">>}
TxDeviations == {<<"body", "drop">>, <<"body", "twice">>, <<"body", "none">>, <<"txs", "twice">>}
Change(c, d) == [c EXCEPT ![d[1]] = d[2]]
ASSUME Accept(Implied)
ASSUME \A d \in Deviations \cup TxDeviations : ~Accept(Change(Implied, d))
\* two deviations never repair each other
ASSUME \A d, e \in Deviations \cup TxDeviations : d[1] # e[1] => ~Accept(Change(Change(Implied, d), e))
=============================================================================

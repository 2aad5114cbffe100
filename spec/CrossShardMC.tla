--------------------------- MODULE CrossShardMC ---------------------------
(* All small behaviours of CrossShard.                                      *)
EXTENDS CrossShard
\* one price, a limit that one or two deposits reach
MInit == /\ cfg \in [xlim : {9000}, rateN : {2}, rateD : {3}, evm : {0, 2}, ddos : {0}, reward : {1001}, conv : {2}, rr : {33}, bank : {500000}]
         /\ mb = <<GenesisBlock(1), GenesisBlock(2), GenesisBlock(3)>>
         /\ rb = <<[p |-> 0, h |-> 0, l |-> <<>>, cs |-> 0, amt |-> 0]>>
G(g, f, ts, to, v, kind, x, s) == [f |-> f, ts |-> ts, tk |-> 1, gt |-> g, kind |-> kind, to |-> to, v |-> v, price |-> 1,
                             gas |-> Intrinsic([kind |-> kind, ts |-> ts], s) + x, id |-> 0, n |-> 0]
T(f, ts, to, v, kind, x, s) == G(1, f, ts, to, v, kind, x, s)
Other(s) == IF s = 1 THEN 2 ELSE 1
\* shard 1 sends, shard 2 receives and answers
Menu(s) == IF s = 2 THEN {<<>>, <<T(1, 1, 2, 7, "call", 0, s)>>} ELSE
           {<<>>, <<T(1, Other(s), 2, 7, "call", 3, s), G(2, 2, Other(s), CRevert, 5, "call", 10, s)>>,
            <<T(3, Other(s), CClear, 5, "call", 5006, s), T(3, s, CRevert, 5, "call", 5006, s)>>}
RECURSIVE Go(_, _, _, _, _)
Go(st, txs, k, s, h) == IF k > Len(txs) THEN st
    ELSE Go(Apply(st, [txs[k] EXCEPT !.n = st.nonce[txs[k].f]], s, h), txs, k + 1, s, h)
Block(p, r, txs) ==
    /\ Len(mb) < MaxM /\ mb[p].s \in Shards /\ CanBuild(p, r) /\ (txs # <<>> => rb[r].h > 0)
    /\ LET s == mb[p].s b == Begin(s, p, r, Miner)
       IN mb' = Append(mb, Close(s, p, r, Miner, b, Go(b.st, txs, 1, s, H(p) + 1)))
    /\ UNCHANGED <<rb, cfg>>
RECURSIVE Path(_, _)
Path(a, e) == IF e = a \/ e = 0 THEN <<>> ELSE Append(Path(a, mb[e].p), e)
Ends(p, s) == {0} \cup {m \in MIds : mb[m].s = s /\ Conf(p, s) \in MAnc(m) /\ m # Conf(p, s)
                          /\ \A k \in 1..Len(Path(Conf(p, s), m)) : mb[Path(Conf(p, s), m)[k]].r \in RAnc(p)}
Seg(p, s, e) == IF e = 0 THEN <<>> ELSE Path(Conf(p, s), e)
Root(p, e1, e2) == /\ Len(rb) < MaxR + 1 /\ NewRoot(p, Seg(p, 1, e1) \o Seg(p, 2, e2), 1, 700) /\ UNCHANGED <<mb, cfg>>
MNext == \/ \E p \in MIds : \E r \in RIds : \E txs \in Menu(mb[p].s) : Block(p, r, txs)
         \/ \E p \in RIds : \E e1 \in Ends(p, 1) : \E e2 \in Ends(p, 2) : Root(p, e1, e2)
MSpec == MInit /\ [][MNext]_vars
=============================================================================

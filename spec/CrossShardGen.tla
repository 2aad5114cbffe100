-------------------------- MODULE CrossShardGen --------------------------
(* Random behaviours of CrossShard with the expected result of every block. *)
EXTENDS CrossShard, BlockRules, Json
VARIABLES hist, ph, cur
gvars == <<vars, hist, ph, cur>>
Pick(S) == RandomElement(S)
Rec(r) == hist' = Append(hist, r)
None == [s |-> 0]

GInit == /\ cfg = [xlim |-> 0, rateN |-> 1, rateD |-> 1, evm |-> 0, ddos |-> 0, reward |-> 0, conv |-> 0, rr |-> 100, bank |-> 0]
         /\ mb = <<GenesisBlock(1), GenesisBlock(2), GenesisBlock(3)>> /\ hist = <<>> /\ ph = "make" /\ cur = None
         /\ rb = <<[p |-> 0, h |-> 0, l |-> <<>>, cs |-> 0, amt |-> 0]>>
Config == /\ ph = "make" /\ cfg.xlim = 0
          /\ \E x \in {Pick({40000, 60000, 75000})} : \E rt \in {Pick({<<1, 2>>, <<2, 3>>, <<1, 1>>})} :
             \E e \in {Pick({0, 0, 0, 2, 3})} : \E d \in {Pick({0, 0, 2, 3})} : \E w \in {Pick({0, 1001})} :
             \E cv \in {IF Pick(1..9) = 1 THEN 0 ELSE Pick(1..3)} : \E rr \in {Pick({100, 60, 33, 0})} : \E bk \in {IF Pick(1..4) = 1 THEN Pick({0, 200000}) ELSE 5000000} :
               /\ cfg' = [xlim |-> x, rateN |-> rt[1], rateD |-> rt[2], evm |-> e, ddos |-> d, reward |-> w, conv |-> cv, rr |-> rr, bank |-> bk]
               /\ mb' = [i \in 1..3 |-> [mb[i] EXCEPT !.bal[Bank] = bk]]
               /\ Rec([op |-> "C", cfg |-> cfg'])
          /\ UNCHANGED <<rb, ph, cur>>

Tips(s) == {m \in MIds : mb[m].s = s /\ \A k \in MIds : mb[k].p # m}
Builds == {b \in MIds \X RIds : CanBuild(b[1], b[2])}
\* prefer long chains and late root blocks
Good == LET late == {b \in Builds : rb[b[2]].h + 1 >= Len(rb) - 1 /\ b[1] \in Tips(mb[b[1]].s)}
        IN IF late # {} THEN late ELSE Builds
OpenBlock ==
    /\ ph = "make" /\ cfg.xlim # 0 /\ cur.s = 0 /\ Len(mb) < MaxM
    /\ \E w \in {Pick(1..4)} : \E b \in {IF w = 1 THEN Pick(Builds) ELSE Pick(Good)} : \E mi \in {Pick({Miner, Miner, 1})} : \E k \in {Pick(0..4)} :
         LET s == mb[b[1]].s g == Begin(s, b[1], b[2], mi) IN
         cur' = [s |-> s, p |-> b[1], r |-> b[2], miner |-> mi, b |-> g, st |-> g.st, txs |-> <<>>, left |-> k]
    /\ UNCHANGED <<vars, hist, ph>>
Amounts == {0, 1, 7, 1000}
AddTx ==
    /\ cur.s # 0 /\ cur.left > 0
    /\ \E f \in {Pick(Users)} : \E ts \in {Pick(Shards)} : \E tk \in {Pick({1, 1, 1, 2})} : \E gt \in {IF Pick(1..4) = 1 THEN 2 ELSE 1} :
       \E kind \in {IF tk = 1 /\ Pick(1..6) <= gt THEN Pick({"create", "badcreate"}) ELSE "call"} :
       \E to \in {IF tk = 2 THEN Pick(Users) ELSE Pick(Users \cup Contracts)} :
       \E v \in {Pick({0, 1, 7, 1000})} : \E price \in {Pick({0, 1, 1, 3})} : \E x \in {Pick({0, 0, 3, 5006, 10000, 20000})} :
       \E bad \in {Pick(1..12)} :
         LET t == [f |-> f, ts |-> ts, tk |-> tk, gt |-> gt, kind |-> kind, to |-> IF kind = "call" THEN to ELSE 0, price |-> price,
                   v |-> IF bad = 1 THEN (IF tk = 1 THEN cur.st.bal[f] ELSE cur.st.tok[f]) + (IF price = 0 \/ tk = 2 THEN 1 ELSE 0) ELSE v,
                   gas |-> Intrinsic([kind |-> kind, ts |-> ts], cur.s) + (IF bad = 2 THEN 0 ELSE x) - (IF bad = 2 THEN 1 ELSE 0),
                   id |-> Len(mb) * 10 + Len(cur.txs),
                   n |-> IF bad = 3 THEN cur.st.nonce[f] + 1 ELSE IF bad = 4 /\ cur.st.nonce[f] > 0 THEN cur.st.nonce[f] - 1 ELSE cur.st.nonce[f]]
         IN  IF Executable(cur.st, t, cur.s, H(cur.p) + 1, cur.r)
             THEN /\ cur' = [cur EXCEPT !.st = Apply(cur.st, t, cur.s, H(cur.p) + 1), !.txs = Append(@, t), !.left = @ - 1]
                  /\ UNCHANGED hist
             ELSE /\ cur' = [cur EXCEPT !.left = @ - 1]
                  \* a block that includes it must be refused
                  /\ Rec([op |-> "X", s |-> cur.s, p |-> cur.p, r |-> cur.r, miner |-> cur.miner, txs |-> Append(cur.txs, t), id |-> Len(mb) + 1])
    /\ UNCHANGED <<vars, ph>>
Seal ==
    /\ cur.s # 0 /\ cur.left = 0
    /\ LET b == Close(cur.s, cur.p, cur.r, cur.miner, cur.b, cur.st)
       IN  /\ mb' = Append(mb, b)
           /\ \E d \in {Pick({x \in Deviations : x[1] # "txs"})} : Rec([op |-> "M", dev |-> d, id |-> Len(mb) + 1, s |-> b.s, p |-> b.p, r |-> b.r, h |-> b.h, miner |-> b.miner, txs |-> cur.txs,
                   cur |-> b.cur, bal |-> {<<a, b.bal[a]>> : a \in DOMAIN b.bal}, tok |-> {<<a, b.tok[a]>> : a \in DOMAIN b.tok},
                   nonce |-> b.nonce, gas |-> b.gas, xgas |-> b.xgas, cb |-> b.cb, rc |-> b.rc, xrc |-> b.xrc, slot |-> b.slot,
                   recv |-> [i \in 1..Len(b.recv) |-> <<b.recv[i].rh, b.recv[i].mi, b.recv[i].di>>],
                   out |-> b.out])
    /\ cur' = None /\ UNCHANGED <<rb, cfg, ph>>

RECURSIVE Path(_, _)
Path(a, e) == IF e = a \/ e = 0 THEN <<>> ELSE Append(Path(a, mb[e].p), e)
Ends(p, s) == {0} \cup {m \in MIds : mb[m].s = s /\ Conf(p, s) \in MAnc(m) /\ m # Conf(p, s)
                          /\ \A k \in 1..Len(Path(Conf(p, s), m)) : mb[Path(Conf(p, s), m)[k]].r \in RAnc(p)}
Seg(p, s, e) == IF e = 0 THEN <<>> ELSE Path(Conf(p, s), e)
MakeRoot ==
    /\ ph = "make" /\ cfg.xlim # 0 /\ cur.s = 0 /\ Len(rb) < MaxR + 1
    /\ \E w \in {Pick(1..5)} : \E p \in {IF w = 1 THEN Pick(RIds) ELSE Pick({i \in RIds : rb[i].h >= Len(rb) - 2})} :
       \E e1 \in {Pick(Ends(p, 1))} : \E e2 \in {Pick(Ends(p, 2))} : \E e3 \in {Pick(Ends(p, 3))} :
       \E cs \in {Pick(Shards)} : \E amt \in {Pick({0, 700})} :
       \E l \in {Seg(p, 1, e1) \o Seg(p, 2, e2) \o Seg(p, 3, e3)} :
          /\ NewRoot(p, l, cs, amt)
          /\ Rec([op |-> "R", id |-> Len(rb) + 1, p |-> p, l |-> l, cs |-> cs, amt |-> amt])
    /\ UNCHANGED <<mb, cfg, ph, cur>>
Finish == /\ ph = "make" /\ cur.s = 0 /\ Len(mb) = MaxM
          /\ PrintT(<<"TRACE", ToJson(hist)>>) /\ ph' = "done" /\ UNCHANGED <<vars, hist, cur>>
GNext == Config \/ OpenBlock \/ AddTx \/ Seal \/ MakeRoot \/ Finish
GSpec == GInit /\ [][GNext]_gvars
=============================================================================

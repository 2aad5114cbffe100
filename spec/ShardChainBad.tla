--------------------------- MODULE ShardChainBad ---------------------------
(* Behaviours of ShardChain in which blocks that break one rule are delivered *)
(* between the valid ones, alone or behind a valid parent in one batch.       *)
EXTENDS ShardChainGen, BlockRules
\* a body exchanged under the same header cannot be told from the block itself once that is stored
DevOf(m) == IF mb[m].tx = <<>> THEN Deviations
            ELSE IF m \in kM THEN Deviations \cup {d \in TxDeviations : d[1] # "body"}
            ELSE Deviations \cup TxDeviations
\* dependence on a root block that the block's parent rules out
WrongRoots(m) == {r \in kR : ~ValidMinor(mb[m].p, r)}
Targets == {m \in MIds \ {1} : mb[m].p \in kM /\ mb[m].r \in kR}
RunBad ==
    /\ ph = "run" /\ ~AllKnown /\ Targets # {}
    /\ \E m \in {Pick(Targets)} : \E w \in {Pick(1..4)} :
       \/ /\ w = 1 /\ WrongRoots(m) # {}
          /\ \E r \in {Pick(WrongRoots(m))} : Rec([op |-> "dx", id |-> m, dev |-> <<"r", r>>, ok |-> FALSE, tip |-> tip, rtip |-> rtip])
       \/ /\ w # 1 \/ WrongRoots(m) = {}
          /\ \E d \in {Pick(DevOf(m))} : Rec([op |-> "dx", id |-> m, dev |-> d, ok |-> Accept(Change(Implied, d)), tip |-> tip, rtip |-> rtip])
    /\ UNCHANGED <<vars, ph>>
\* a batch: acceptable block, then a damaged child of it (a batch that is not
\* a chain is refused as a whole)
Kids(m) == {k \in MIds : mb[k].p = m /\ mb[k].r \in kR}
RunBatch ==
    /\ ph = "run"
    /\ LET C == {m \in OkM : Kids(m) # {}} IN C # {} /\
       \E m \in {Pick(C)} : \E k \in {Pick(Kids(m))} : \E d \in {Pick({x \in DevOf(k) : x[1] \notin {"dh", "par"}})} :
         /\ DeliverMinor(m)
         /\ Rec([op |-> "db", id |-> m, kid |-> k, dev |-> d, ok |-> FALSE, tip |-> tip', rtip |-> rtip'])
    /\ UNCHANGED ph
BNext == MakeMinor \/ MakeRoot \/ Start \/ RunMinor \/ RunRoot \/ RunBad \/ RunBatch \/ Finish
BSpec == GInit /\ [][BNext]_gvars
=============================================================================

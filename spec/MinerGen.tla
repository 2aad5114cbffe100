----------------------------- MODULE MinerGen -----------------------------
(* Schedules: control calls, changes of the environment, and the order in   *)
(* which block creations, sealings and insertions finish.                   *)
EXTENDS Miner, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, ph
gvars == <<vars, hist, ph>>
Pick(S) == RandomElement(S)
Note(r) == hist' = Append(hist, r) /\ UNCHANGED ph
Silent == UNCHANGED <<hist, ph>>
GInit == Init /\ hist = <<>> /\ ph = "run"
Kind == CHOOSE k \in {"on", "off", "tip"} : \E t \in Callers : pc[t] = "idle" /\ pc'[t] = k
GCall == /\ (calls = 0 => ~mining) /\ Call /\ Note([op |-> "call", k |-> Kind])
GFirst == \E t \in Callers : /\ calls = 0 /\ calls' = 1 /\ Go(t, "on") /\ Note([op |-> "call", k |-> "on"])
                             /\ UNCHANGED <<mining, syncing, cok, tip, startQ, workQ, resQ, lock, blk, seal, fails, flips>>
GFlip == /\ Flip /\ \E dead \in {Pick(BOOLEAN)} : Note(IF syncing' # syncing THEN [op |-> "sync", on |-> syncing', dead |-> dead] ELSE [op |-> "cok", on |-> cok'])
GFound == Found /\ Note([op |-> "found"])
Failed == Cardinality({i \in DOMAIN hist : hist[i].op = "create" /\ ~hist[i].ok})
GCreate == (cok \/ Failed < 2) /\ \E t \in Loops : Create(t) /\ Note([op |-> "create", ok |-> cok])
GSeal == (SealOk /\ Note([op |-> "seal", ok |-> TRUE])) \/ (SealBad /\ Note([op |-> "seal", ok |-> FALSE]))
GIns == (InsOk /\ Note([op |-> "insert", ok |-> TRUE])) \/ (InsBad /\ Note([op |-> "insert", ok |-> FALSE]))
GSilent == /\ Silent
           /\ \/ Calls \/ Take \/ Grab \/ SLock \/ SUnlock \/ Result
              \/ \E t \in Loops : C1(t) \/ C2(t) \/ C3(t) \/ Put(t) \/ Again(t)
Gate == GCreate \/ GSeal \/ GIns
Idle == ~ENABLED (GSilent \/ Gate)
Open == ph = "run" /\ Len(hist) < MaxOps /\ calls > 0
RCall == Open /\ (Idle \/ Pick(1..12) = 1) /\ \E k \in {Pick({"on", "off", "tip", "tip"})} : GCall /\ Kind = k
RFlip == Open /\ Pick(1..15) = 1 /\ GFlip
RFound == Open /\ Pick(1..3) = 1 /\ GFound
Run == (ph = "run" /\ GFirst) \/ RCall \/ RFlip \/ RFound \/ (Open /\ Gate) \/ (Open /\ GSilent)
Finish == /\ ph = "run" /\ (Len(hist) >= MaxOps \/ (calls >= MaxCalls /\ Pick(1..6) = 1)) /\ ph' = "done" /\ PrintT(<<"TRACE", ToJson(hist)>>) /\ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][Run \/ Finish]_gvars
==========================================================================

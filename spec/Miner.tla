------------------------------ MODULE Miner ------------------------------
(* The miner of a shard or of the root chain: control calls (start, stop,   *)
(* new tip), the commit, seal and result loops and the committers spawned   *)
(* after a failed sealing, connected by bounded queues.                     *)
(*   Waiting = FALSE: a start request that finds one queued is merged with  *)
(*     it, and sealing holds no lock.                                       *)
(*   Waiting = TRUE: control calls and loops wait for room in the start     *)
(*     queue, holding the lock where they take it, and a failed sealing     *)
(*     commits from the sealing loop itself.  TLC refutes this variant.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Waiting, MaxTip, MaxCalls, MaxFail, MaxFlip
VARIABLES mining, syncing, cok, tip,   \* environment
          startQ, workQ, resQ, lock,   \* startQ \in 0..1, workQ, resQ: sequences of heights; lock: holder or ""
          pc, blk,                     \* per thread: where it is, the height it works on
          seal,                        \* height being sealed and not interrupted, 0 = none
          calls, fails, flips          \* budgets spent
vars == <<mining, syncing, cok, tip, startQ, workQ, resQ, lock, pc, blk, seal, calls, fails, flips>>
Loops == {"C", "S", "R", "X"}
Callers == {"call1", "call2"}
Threads == Loops \cup Callers

Init == /\ mining = FALSE /\ syncing = FALSE /\ cok = TRUE /\ tip = 0 /\ startQ = 0 /\ workQ = <<>> /\ resQ = <<>> /\ lock = ""
        /\ pc = [t \in Threads |-> IF t = "X" \/ t \in Callers THEN "idle" ELSE "wait"] /\ blk = [t \in Threads |-> 0]
        /\ seal = 0 /\ calls = 0 /\ fails = 0 /\ flips = 0
Env == <<mining, syncing, cok, tip, calls, fails, flips>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Home(t) == IF t = "X" \/ t \in Callers THEN "idle" ELSE "wait"
Back(t) == IF t = "S" THEN "unlock" ELSE Home(t)
Free(t) == lock = "" \/ (lock = t /\ ~Waiting)

(* ---- the request to commit new work ---- *)
Ask == IF Waiting THEN startQ = 0 /\ startQ' = 1 ELSE startQ' = 1

(* ---- control calls ---- *)
Call == \E t \in Callers : \E k \in {"on", "off", "tip"} :
    /\ pc[t] = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
    /\ (k = "tip" => tip < MaxTip) /\ tip' = (IF k = "tip" THEN tip + 1 ELSE tip)
    /\ Go(t, k) /\ UNCHANGED <<mining, syncing, cok, startQ, workQ, resQ, lock, blk, seal, fails, flips>>
CallOn(t) == /\ pc[t] = "on" /\ lock = ""
             /\ mining' = TRUE
             /\ IF Waiting THEN lock' = t /\ Go(t, "asklocked") /\ UNCHANGED startQ ELSE Ask /\ Go(t, "idle") /\ UNCHANGED lock
             /\ UNCHANGED <<syncing, cok, tip, workQ, resQ, blk, seal, calls, fails, flips>>
AskLocked(t) == /\ pc[t] = "asklocked" /\ Ask /\ lock' = "" /\ Go(t, "idle")
                /\ UNCHANGED <<Env, workQ, resQ, blk, seal>>
CallOff(t) == /\ pc[t] = "off" /\ lock = ""
              /\ mining' = FALSE
              /\ IF Waiting THEN lock' = t /\ Go(t, "stoplocked") /\ UNCHANGED seal     \* takes the lock again: never returns
                            ELSE seal' = 0 /\ Go(t, "idle") /\ UNCHANGED lock
              /\ UNCHANGED <<syncing, cok, tip, startQ, workQ, resQ, blk, calls, fails, flips>>
CallTip(t) == /\ pc[t] = "tip" /\ IF Waiting /\ syncing THEN UNCHANGED startQ ELSE Ask
              /\ Go(t, "idle") /\ UNCHANGED <<Env, workQ, resQ, lock, blk, seal>>
Calls == \E t \in Callers : CallOn(t) \/ AskLocked(t) \/ CallOff(t) \/ CallTip(t)

(* ---- committing work (commit loop, result loop after a failed insertion, after a failed sealing) ---- *)
Take == /\ pc["C"] = "wait" /\ startQ = 1 /\ startQ' = 0 /\ Go("C", "c1") /\ UNCHANGED <<Env, workQ, resQ, lock, blk, seal>>
C1(t) == /\ pc[t] = "c1" /\ (syncing \/ lock = "")
         /\ Go(t, IF syncing THEN (IF mining \/ Waiting THEN "again" ELSE Back(t)) ELSE IF mining THEN "c2" ELSE Back(t))
         /\ UNCHANGED <<Env, startQ, workQ, resQ, lock, blk, seal>>
C2(t) == /\ pc[t] = "c2" /\ lock = "" /\ seal' = 0 /\ Go(t, "create") /\ UNCHANGED <<Env, startQ, workQ, resQ, lock, blk>>
Create(t) == /\ pc[t] = "create"
             /\ IF cok THEN blk' = [blk EXCEPT ![t] = tip + 1] /\ Go(t, "c3") ELSE Go(t, "again") /\ UNCHANGED blk
             /\ UNCHANGED <<Env, startQ, workQ, resQ, lock, seal>>
C3(t) == /\ pc[t] = "c3" /\ Go(t, IF blk[t] <= tip THEN "again" ELSE "put") /\ UNCHANGED <<Env, startQ, workQ, resQ, lock, blk, seal>>
Put(t) == /\ pc[t] = "put" /\ workQ = <<>> /\ workQ' = <<blk[t]>> /\ Go(t, Back(t)) /\ UNCHANGED <<Env, startQ, resQ, lock, blk, seal>>
Again(t) == /\ pc[t] = "again" /\ Ask /\ Go(t, Back(t)) /\ UNCHANGED <<Env, workQ, resQ, lock, blk, seal>>
Commit(t) == C1(t) \/ C2(t) \/ Create(t) \/ C3(t) \/ Put(t) \/ Again(t)

(* ---- sealing ---- *)
Grab == /\ pc["S"] = "wait" /\ workQ # <<>> /\ blk' = [blk EXCEPT !["S"] = Head(workQ)] /\ workQ' = <<>> /\ Go("S", "lock")
        /\ UNCHANGED <<Env, startQ, resQ, lock, seal>>
SLock == /\ pc["S"] = "lock" /\ lock = ""
         /\ IF ~Waiting /\ blk["S"] <= tip THEN Ask /\ Go("S", "wait") /\ UNCHANGED lock      \* overtaken by a newer tip
            ELSE lock' = (IF Waiting THEN "S" ELSE "") /\ Go("S", "seal") /\ UNCHANGED startQ
         /\ UNCHANGED <<Env, workQ, resQ, blk, seal>>
SealOk == /\ pc["S"] = "seal" /\ seal' = blk["S"] /\ Go("S", "unlock") /\ UNCHANGED <<Env, startQ, workQ, resQ, lock, blk>>
SealBad == /\ pc["S"] = "seal" /\ fails < MaxFail /\ fails' = fails + 1
           /\ IF Waiting THEN Go("S", "c1") ELSE pc["X"] = "idle" /\ pc' = [pc EXCEPT !["X"] = "c1", !["S"] = "unlock"]
           /\ UNCHANGED <<mining, syncing, cok, tip, calls, flips, startQ, workQ, resQ, lock, blk, seal>>
SUnlock == /\ pc["S"] = "unlock" /\ lock' = (IF lock = "S" THEN "" ELSE lock) /\ Go("S", "wait") /\ UNCHANGED <<Env, startQ, workQ, resQ, blk, seal>>

(* ---- results ---- *)
Found == /\ seal # 0 /\ calls < MaxCalls /\ calls' = calls + 1 /\ Len(resQ) < 2 /\ resQ' = Append(resQ, seal)
         /\ UNCHANGED <<mining, syncing, cok, tip, fails, flips, startQ, workQ, lock, pc, blk, seal>>
Result == /\ pc["R"] = "wait" /\ resQ # <<>> /\ blk' = [blk EXCEPT !["R"] = Head(resQ)] /\ resQ' = Tail(resQ) /\ Go("R", "insert")
          /\ UNCHANGED <<Env, startQ, workQ, lock, seal>>
InsOk == /\ pc["R"] = "insert" /\ blk["R"] = tip + 1 /\ tip < MaxTip /\ \E t \in Callers : pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "tip", !["R"] = "wait"]
         /\ tip' = tip + 1 /\ UNCHANGED <<mining, syncing, cok, calls, fails, flips, startQ, workQ, resQ, lock, blk, seal>>
InsBad == /\ pc["R"] = "insert" /\ (blk["R"] <= tip \/ tip = MaxTip \/ fails < MaxFail) /\ fails' = (IF blk["R"] <= tip \/ fails >= MaxFail THEN fails ELSE fails + 1)
          /\ Go("R", "c1") /\ UNCHANGED <<mining, syncing, cok, tip, calls, flips, startQ, workQ, resQ, lock, blk, seal>>

Flip == /\ flips < MaxFlip /\ flips' = flips + 1
        /\ ((syncing' = ~syncing /\ cok' = cok) \/ (cok' = ~cok /\ syncing' = syncing))
        /\ UNCHANGED <<mining, tip, calls, fails, startQ, workQ, resQ, lock, pc, blk, seal>>
Inner == Calls \/ Take \/ (\E t \in Loops : Commit(t)) \/ Grab \/ SLock \/ SealOk \/ SUnlock \/ Result \/ InsOk \/ InsBad
Next == Call \/ Found \/ Flip \/ SealBad \/ Inner
Step(t) == CASE t \in Callers -> CallOn(t) \/ AskLocked(t) \/ CallOff(t) \/ CallTip(t)
             [] t = "C" -> Take \/ Commit(t)
             [] t = "S" -> Grab \/ SLock \/ SealOk \/ SUnlock \/ Commit(t)
             [] t = "R" -> Result \/ InsOk \/ InsBad \/ Commit(t)
             [] t = "X" -> Commit(t)
Fair == \A t \in Threads : WF_vars(Step(t))
Spec == Init /\ [][Next]_vars /\ Fair

(* ---- properties ---- *)
(* Every control call returns. *)
Returns == \A t \in Callers : pc[t] # "idle" ~> pc[t] = "idle"
(* Once things stay as they are, with mining enabled, no synchronisation and blocks being created, the current tip is worked on. *)
Works == <>[](mining /\ ~syncing /\ cok) => <>[](seal > tip)
(* No loop is stuck for ever (other than waiting for input). *)
Rest == \A t \in Loops : pc[t] \notin {"wait", "idle"} ~> (pc[t] \in {"wait", "idle"} \/ syncing \/ ~cok)
TypeOK == startQ \in 0..1 /\ Len(workQ) <= 1 /\ seal <= tip + 1
==========================================================================

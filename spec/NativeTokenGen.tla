--------------------------- MODULE NativeTokenGen ---------------------------
(* Random programs of NativeToken with the expected results. *)
EXTENDS NativeToken, Json
VARIABLES hist, ph
gvars == <<vars, hist, ph>>
Pick(S) == RandomElement(S)
Rec(r) == hist' = Append(hist, r)
Codes(f) == Cardinality({i \in 1..Len(f) : f[i].kind = "code"})

GInit == /\ env = [chain |-> 0, time |-> 0, sys |-> TRUE, deep |-> 0] /\ st = Start /\ fs = <<>> /\ n = 0 /\ tx = 0
         /\ out = [ok |-> TRUE, w |-> 0] /\ tot = [t \in Toks |-> Sum(Start, t)] /\ hist = <<>> /\ ph = "env"
Setup ==
    /\ ph = "env" /\ ph' = "run"
    /\ \E c \in {Pick({0, 0, 0, 1})}, t \in {Pick(1..10)}, y \in {Pick(1..4)}, d \in {Pick(1..30)} :
         env' = [chain |-> c, time |-> CASE t = 1 -> T1 [] t = 2 -> T1 + 1 [] t = 3 -> T2 [] t = 4 -> T2 + 1 [] t = 5 -> T2 - 1 [] OTHER -> 1000,
                 sys |-> y > 1, deep |-> CASE d = 1 -> 1021 [] d = 2 -> 1022 [] d = 3 -> 1023 [] d = 4 -> 1024 [] OTHER -> 0]
    /\ st' = [Start EXCEPT !.bal = [a \in Accts |-> [t \in Toks |-> CASE a = "E" -> 40 [] a \in Contracts -> 3 [] a = "SYS" /\ env'.sys -> 3 [] OTHER -> 0]],
                           !.code = Contracts \cup (IF env'.sys THEN {"SYS"} ELSE {}), !.dep = IF env'.sys THEN {2} ELSE {}]
    /\ tot' = [t \in Toks |-> Sum(st', t)]
    /\ Rec([op |-> "env", chain |-> env'.chain, time |-> env'.time, sys |-> env'.sys, deep |-> env'.deep])
    /\ UNCHANGED <<fs, n, tx, out>>

RToks == Toks \cup BadToks
Val(w) == IF w < 3 THEN 0 ELSE IF w < 9 THEN w - 2 ELSE 50
\* where something is sent
Plain == {"P", "C1", "C2"} \cup (IF env.sys THEN {"SYS"} ELSE {})
Addr(w) == IF w = 1 THEN Pick(Ops \cup {"E"}) ELSE Pick(Plain)
NoArg == [to |-> "P", tok |-> "A", v |-> 0]
Owners == {"E", "P", "C1", "C2", "SYS"}
\* arguments of an operation
ArgFor(to, o, k, v, dst, inner) ==
    CASE to = "XFER" -> [to |-> dst, tok |-> k, v |-> v, a |-> inner]
      [] to = "DEPLOY" -> [to |-> "P", tok |-> k, v |-> v % 5, a |-> NoArg]
      [] OTHER -> [to |-> o, tok |-> k, v |-> v, a |-> NoArg]
\* a call's target and arguments
Tok(w) == IF w < 5 THEN "A" ELSE IF w < 7 THEN "M" ELSE Pick(RToks)
Target(u, w) == CASE u <= 4 -> Addr(w) [] u <= 8 -> "XFER" [] u <= 10 -> "MINT" [] u = 11 -> "BAL" [] u <= 13 -> "CURID" [] u = 14 -> "DEPLOY"

Done(h) == IF fs' = <<>> THEN Append(h, [op |-> "done", ok |-> out'.ok, w |-> out'.w, bal |-> st'.bal, code |-> [a \in {"C1", "C2"} |-> a \in st'.code],
                                         store |-> st'.store, dep |-> [i \in 1..3 |-> i \in st'.dep]])
           ELSE h
RecS(r) == hist' = Done(Append(hist, r))

Send ==
    /\ ph = "run" /\ fs = <<>> /\ tx < MaxTx
    /\ \E u \in {Pick(1..20)}, w \in {Pick(1..8)}, w2 \in {Pick(1..8)}, k \in {Tok(Pick(1..8))}, k2 \in {Tok(Pick(1..8))}, ki \in {Tok(Pick(1..8))},
          v \in {Val(Pick(1..7))}, va \in {Val(Pick(1..9))}, vi \in {Val(Pick(1..7))}, o \in {Pick(Owners)}, oi \in {Pick(Owners)},
          ti \in {Pick({"MINT", "BAL", "CURID"})}, d \in {Pick(1..3)}, cr \in {Pick(1..20)} :
       \E to \in {IF u <= 14 /\ env.deep = 0 THEN Target(u, w) ELSE Pick(st.code \cup {"P"})} :
       \E dst \in {IF d = 1 THEN ti ELSE Addr(w2)} :
       \E a \in {ArgFor(to, o, k2, va, dst, ArgFor(ti, oi, ki, vi, "P", NoArg))} :
       \E tk \in {IF k \in Toks /\ w2 < 6 THEN k ELSE "D"}, val \in {IF env.deep > 0 \/ v > 20 THEN 0 ELSE v}, create \in {cr = 1 /\ env.deep = 0} :
          /\ TxStep(to, val, tk, [to |-> to, a |-> a], create)
          /\ RecS([op |-> "tx", to |-> to, v |-> val, tok |-> tk, a |-> a, create |-> create, d |-> Codes(fs')])
    /\ UNCHANGED ph

Steps == IF env.deep > 0 THEN 4 ELSE MaxSteps
Do ==
    /\ ph = "run" /\ fs # <<>> /\ n < Steps
    /\ \E u \in {Pick(1..14)}, w \in {Pick(1..8)}, w2 \in {Pick(1..8)}, k2 \in {Tok(Pick(1..8))}, ki \in {Tok(Pick(1..8))},
          v \in {Val(Pick(1..6))}, va \in {Val(Pick(1..9))}, vi \in {Val(Pick(1..7))}, o \in {Pick(Owners)}, oi \in {Pick(Owners)},
          ti \in {Pick({"MINT", "BAL", "CURID"})}, d \in {Pick(1..3)}, hw \in {Pick(1..10)}, x \in {Pick(1..20)} :
       \E to \in {IF Len(fs) > MaxDepth THEN Target(4 + (u % 10) + 1, w) ELSE Target(u, w)} :
       \E dst \in {IF d = 1 \/ Len(fs) > MaxDepth THEN ti ELSE Addr(w2)} :
       \E a \in {ArgFor(to, o, k2, va, dst, ArgFor(ti, oi, ki, vi, "P", NoArg))} :
       \E how \in {CASE hw <= 6 -> "call" [] hw = 7 -> "code" [] hw = 8 -> "deleg" [] OTHER -> "static"} :
       \E val \in {IF how \in {"call", "code"} /\ ~(Last(fs).ro /\ hw > 1) THEN (IF v > 20 THEN 3 ELSE v) ELSE 0} :
         IF x <= 15 THEN CallStep(how, [to |-> to, v |-> val, a |-> a]) /\ RecS([op |-> "call", how |-> how, to |-> to, v |-> val, a |-> a, d |-> Codes(fs')])
         ELSE IF x <= 17 THEN StoreStep /\ RecS([op |-> "store", d |-> Codes(fs')])
         ELSE IF x = 18 THEN CreateStep(val) /\ RecS([op |-> "create", v |-> val, d |-> Codes(fs')])
         ELSE IF x = 19 /\ Last(fs).self # "SYS" THEN \E b \in {Pick(Plain)} : KillStep(b) /\ RecS([op |-> "kill", to |-> b, d |-> Codes(fs')])
         ELSE \E e \in {Pick({"rev", "inv", "ret"})} : EndStep(e) /\ RecS([op |-> "end", how |-> e, d |-> Codes(fs')])
    /\ UNCHANGED ph
Leave ==
    /\ ph = "run" /\ fs # <<>>
    /\ \E w \in {Pick(1..8)}, z \in {Pick(1..6)} : \E e \in {IF w = 1 THEN "rev" ELSE IF w = 2 THEN "inv" ELSE "ret"} :
         (n >= Steps \/ z = 1) /\ EndStep(e) /\ RecS([op |-> "end", how |-> e, d |-> Codes(fs')])
    /\ UNCHANGED ph
Finish == /\ ph = "run" /\ fs = <<>> /\ tx = MaxTx /\ PrintT(<<"TRACE", ToJson(hist)>>) /\ ph' = "done" /\ UNCHANGED <<vars, hist>>
GNext == Setup \/ Send \/ Do \/ Leave \/ Finish
GSpec == GInit /\ [][GNext]_gvars
Stop == ph # "done"
=============================================================================

---------------------------- MODULE NativeToken -----------------------------
(* Native tokens inside the virtual machine. A transaction is a call by an   *)
(* account; contracts choose freely what to do next: call other accounts in  *)
(* any of the four ways, use the operations that exist as addresses (move a  *)
(* token, mint, read a balance, ask which token came in, deploy a system     *)
(* contract), write storage, create an account, or end (return, revert,      *)
(* fail, destroy themselves). Whatever fails leaves nothing behind.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxSteps,  \* steps of one transaction
          MaxTx,     \* transactions
          MaxDepth   \* nesting explored (the machine's own limit is Limit)
VARIABLES st,      \* balances, storage, code, what is destroyed
          fs,      \* frames in progress, innermost last
          env,     \* chain, time, whether the system contract is in place
          n, tx,   \* steps of this transaction, transactions so far
          tot,     \* how much of each token should exist
          out      \* outcome of the last transaction
vars == <<st, fs, env, n, tx, tot, out>>

Contracts == {"C1", "C2"}
Ops == {"XFER", "MINT", "BAL", "CURID", "DEPLOY"}
Accts == {"E", "P", "W", "SYS", "NEW"} \cup Contracts \cup Ops
Toks == {"D", "A", "M"}                  \* D is the default token, M has the largest id
BadToks == {"OVER", "WRAP", "WRAPD"}     \* one above the largest; ids equal to A and D modulo 2^64
Num(t) == CASE t = "D" -> 760 [] t = "A" -> 5 [] t = "M" -> 91
Limit == 1024
T1 == 100       \* token operations exist after this time, minting after T2
T2 == 200
Active(op) == env.time > (IF op \in {"MINT", "BAL"} THEN T2 ELSE T1)

Start == [bal |-> [a \in Accts |-> [t \in Toks |-> CASE a = "E" -> 40 [] a \in Contracts -> 3 [] a = "SYS" /\ env.sys -> 3 [] OTHER -> 0]],
          code |-> Contracts \cup (IF env.sys THEN {"SYS"} ELSE {}),
          store |-> [a \in Accts |-> 0], dead |-> {}, dep |-> IF env.sys THEN {2} ELSE {}]

Mod == 10007
Fail == 0
Note(r, x) == (r * 7 + x) % Mod
Move(s, a, b, v, t) == LET s1 == [s EXCEPT !.bal[a][t] = @ - v] IN [s1 EXCEPT !.bal[b][t] = @ + v]

Depth(f) == env.deep + Cardinality({i \in 1..Len(f) : f[i].kind = "code"})
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Pre(snap) == [kind |-> "op", snap |-> snap]
Frame(code, self, cb, val, tok, ro, snap) ==
    [kind |-> "code", code |-> code, self |-> self, cb |-> cb, val |-> val, tok |-> tok, ro |-> ro, q |-> FALSE, r |-> 0, snap |-> snap]

\* ----------------------------------------------------------- giving results
\* result: frames, state, and the outcome of the transaction when none are left
RECURSIVE Deliver(_, _, _, _)
Deliver(f, s, ok, w) ==
    IF f = <<>> THEN [fs |-> <<>>, st |-> s, out |-> [ok |-> ok, w |-> w]] ELSE
    IF Last(f).kind = "op" THEN (IF ok THEN Deliver(Front(f), s, TRUE, w) ELSE Deliver(Front(f), Last(f).snap, FALSE, 0)) ELSE
    [fs |-> [f EXCEPT ![Len(f)].r = Note(@, IF ok THEN 1 + (w % 1000) ELSE Fail)], st |-> s, out |-> [ok |-> FALSE, w |-> 0]]

\* the innermost frame ends; a contract that was given another token than the default must have asked which
Refused(f) == f.val # 0 /\ f.tok # "D" /\ ~f.q
End(f, s, ok, w) == LET t == Last(f) IN
    IF ok /\ ~Refused(t) THEN Deliver(Front(f), s, TRUE, w) ELSE Deliver(Front(f), t.snap, FALSE, 0)

\* ----------------------------------------------------------------- calls
\* everything a call from account `me` (seen by the operation as `cs`) can reach
\* how: call, code, deleg, static; c = [to, v, a]; a: argument of an operation; val: value the operation sees
RECURSIVE Reach(_, _, _, _, _, _, _, _)
Reach(f, s, snap, me, cs, tok, ro, c) ==
    CASE c.to = "XFER" /\ Active("XFER") ->
            LET a == c.a IN
            IF ro \/ a.tok \in BadToks \/ a.to = "XFER" THEN Deliver(f, snap, FALSE, 0) ELSE
            IF s.bal[cs][a.tok] < a.v \/ Depth(f) >= Limit \/ s.bal[me][a.tok] < a.v THEN Deliver(f, snap, FALSE, 0) ELSE
            LET s1 == Move(s, me, a.to, a.v, a.tok)
                f1 == Append(f, Pre(snap))
            IN  IF a.to \in s.code THEN [fs |-> Append(f1, Frame(a.to, a.to, me, a.v, a.tok, FALSE, s)), st |-> s1, out |-> [ok |-> FALSE, w |-> 0]]
                ELSE Reach(f1, s1, s, me, me, a.tok, FALSE, [to |-> a.to, a |-> a.a])
      [] c.to = "MINT" /\ Active("MINT") ->
            LET a == c.a IN
            IF a.v = 0 \/ a.tok \notin Toks \ {"D"} \/ env.chain # 0 \/ cs # "SYS" \/ ro THEN Deliver(f, snap, FALSE, 0)
            ELSE Deliver(f, [s EXCEPT !.bal[a.to][a.tok] = @ + a.v], TRUE, 1)
      [] c.to = "BAL" /\ Active("BAL") ->
            IF c.a.tok \in BadToks THEN Deliver(f, snap, FALSE, 0) ELSE Deliver(f, s, TRUE, s.bal[c.a.to][c.a.tok])
      [] c.to = "CURID" /\ Active("CURID") -> Deliver(f, s, TRUE, Num(tok))
      [] c.to = "DEPLOY" /\ Active("DEPLOY") ->
            LET i == IF c.a.v = 0 THEN 1 ELSE c.a.v IN
            IF i > 3 \/ c.a.tok \in BadToks \/ (i = 2 /\ env.chain # 0) \/ (i = 2 /\ env.time < T2) \/ (i = 3 /\ env.time < T2) \/ ro \/ tok # "D"
               \/ i \in s.dep \/ Depth(f) > Limit THEN Deliver(f, snap, FALSE, 0)
            ELSE Deliver(f, [s EXCEPT !.dep = @ \cup {i}], TRUE, 0)
      [] OTHER -> Deliver(f, s, TRUE, 0)

Call(f, s, how, c) ==
    LET t == Last(f)
        f1 == IF c.to = "CURID" THEN [f EXCEPT ![Len(f)].q = TRUE] ELSE f
        me == t.self
        s1 == IF how = "call" THEN Move(s, me, c.to, c.v, t.tok) ELSE s
        ro == t.ro \/ how = "static"
    IN  IF how = "call" /\ t.ro /\ c.v > 0 THEN End(f, s, FALSE, 0) ELSE
        IF Depth(f) > Limit \/ (how \in {"call", "code"} /\ s.bal[me][t.tok] < c.v) THEN Deliver(f1, s, FALSE, 0) ELSE
        IF c.to \in s.code THEN
            [fs |-> Append(f1, CASE how = "call" -> Frame(c.to, c.to, me, c.v, t.tok, ro, s)
                                 [] how = "static" -> Frame(c.to, c.to, me, 0, t.tok, ro, s)
                                 [] how = "code" -> Frame(c.to, me, me, c.v, t.tok, ro, s)
                                 [] how = "deleg" -> Frame(c.to, me, t.cb, t.val, t.tok, ro, s)),
             st |-> s1, out |-> [ok |-> FALSE, w |-> 0]]
        ELSE Reach(f1, s1, s, me, IF how = "deleg" THEN t.cb ELSE me, t.tok, ro, c)

\* ------------------------------------------------------------- steps
Sum(s, t) == s.bal["E"][t] + s.bal["P"][t] + s.bal["W"][t] + s.bal["SYS"][t] + s.bal["NEW"][t] + s.bal["C1"][t] + s.bal["C2"][t]
             + s.bal["XFER"][t] + s.bal["MINT"][t] + s.bal["BAL"][t] + s.bal["CURID"][t] + s.bal["DEPLOY"][t]

\* destroyed accounts disappear when their transaction is over
Sweep(s) == [s EXCEPT !.bal = [a \in Accts |-> IF a \in s.dead THEN [t \in Toks |-> 0] ELSE s.bal[a]],
                      !.code = @ \ s.dead, !.store = [a \in Accts |-> IF a \in s.dead THEN 0 ELSE s.store[a]], !.dead = {}]

Become(x) ==
    /\ fs' = x.fs /\ n' = (IF fs = <<>> THEN 0 ELSE n + 1) /\ UNCHANGED <<env, tot>>
    /\ st' = IF x.fs = <<>> THEN Sweep(x.st) ELSE x.st
    /\ out' = IF x.fs = <<>> THEN (IF env.deep > 0 THEN [ok |-> TRUE, w |-> IF x.out.ok THEN 1 + (x.out.w % 1000) ELSE 0] ELSE x.out) ELSE out
    /\ tx' = IF x.fs = <<>> THEN tx + 1 ELSE tx

\* the account E sends a transaction; with env.deep it reaches `to` through that many nested calls of W, which reports the result
TxStep(to, v, tok, c, create) ==
    /\ fs = <<>> /\ tx < MaxTx
    /\ st.bal["E"][tok] >= v
    /\ env.deep > 0 => (v = 0 /\ ~create /\ to \in st.code)
    /\ LET s1 == Move(st, "E", to, v, tok) IN
       IF create THEN Become(IF tok # "D" THEN Deliver(<<>>, st, FALSE, 0) ELSE Deliver(<<>>, Move(st, "E", "NEW", v, tok), TRUE, 0)) ELSE
       IF to \in st.code THEN Become([fs |-> <<Frame(to, to, IF env.deep > 0 THEN "W" ELSE "E", v, tok, FALSE, st)>>, st |-> s1, out |-> out])
       ELSE Become(Reach(<<>>, s1, st, "E", "E", tok, FALSE, c))
CallStep(how, c) == fs # <<>> /\ Become(Call(fs, st, how, c))
StoreStep == fs # <<>> /\ LET t == Last(fs) IN
    Become(IF t.ro THEN End(fs, st, FALSE, 0) ELSE [fs |-> fs, st |-> [st EXCEPT !.store[t.self] = @ + 1], out |-> out])
CreateStep(v) == fs # <<>> /\ LET t == Last(fs) IN
    Become(IF t.ro THEN End(fs, st, FALSE, 0) ELSE
           IF Depth(fs) > Limit \/ st.bal[t.self][t.tok] < v \/ t.tok # "D" THEN Deliver(fs, st, FALSE, 0)
           ELSE Deliver(fs, Move(st, t.self, "NEW", v, "D"), TRUE, 0))
EndStep(how) == fs # <<>> /\ Become(End(fs, st, how = "ret", Last(fs).r))
KillStep(b) == fs # <<>> /\ LET t == Last(fs) IN
    Become(IF t.ro THEN End(fs, st, FALSE, 0) ELSE
           LET s1 == Move(st, t.self, b, st.bal[t.self]["D"], "D")
           IN  End(fs, [s1 EXCEPT !.bal[t.self] = [k \in Toks |-> 0], !.dead = @ \cup {t.self}], TRUE, 0))

Init == /\ env \in {[chain |-> c, time |-> t, sys |-> y, deep |-> 0] : c \in {0, 1}, t \in {T2, T2 + 1}, y \in BOOLEAN}
        /\ st = Start /\ fs = <<>> /\ n = 0 /\ tx = 0 /\ out = [ok |-> TRUE, w |-> 0]
        /\ tot = [t \in Toks |-> Sum(Start, t)]

\* ------------------------------------------------------------- properties
NoNegative == \A a \in Accts, t \in Toks : st.bal[a][t] >= 0
\* an account in a read-only frame cannot change anything
ReadOnly == \A i \in 1..Len(fs) : (fs[i].kind = "code" /\ fs[i].ro) => st = fs[i].snap
\* every amount that is in the books of a frame in progress was really there
Nested == \A i \in 1..Len(fs) : fs[i].kind = "code" => fs[i].self \in Accts
\* the default token is never made
DefaultKept == Sum(st, "D") <= tot["D"]
\* nothing is made without the system contract, on another chain, or before its time
Others == (env.chain # 0 \/ ~env.sys \/ env.time <= T2) => \A t \in Toks : Sum(st, t) <= tot[t]
\* a failed transaction leaves everything as it was
FailKeeps == [][(fs # <<>> /\ fs' = <<>> /\ ~out'.ok) => st' = fs[1].snap]_vars
=============================================================================

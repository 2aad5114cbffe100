---------------------------- MODULE StateDBGen ----------------------------
(* Behaviours of StateDB over several working states of one database: the    *)
(* operations with the values every account must show afterwards.            *)
EXTENDS StateDB, TLC, Json
CONSTANTS MaxLen, MaxV
VARIABLES dbs,       \* working states: [on, w, stack, base]
          com,       \* committed contents: [w, mem, disk]
          hist, many, ph
vars == <<dbs, com, hist, many, ph>>
Pick(S) == RandomElement(S)
Ids == 1..Len(dbs)
On == {i \in Ids : dbs[i].on}
Db(w, b) == [on |-> TRUE, w |-> w, stack |-> <<>>, base |-> b]
Rec(r) == hist' = Append(hist, r)

Init == /\ dbs = <<Db(W0, 0)>> /\ com = <<>> /\ many \in BOOLEAN /\ ph = "run"
        /\ hist = <<>>

\* one operation on working state i
Apply(i, r, w2) == /\ dbs' = [dbs EXCEPT ![i].w = w2] /\ Rec([r EXCEPT !.e = Reads(w2)]) /\ UNCHANGED com
R(op, i, x, t, v) == [op |-> op, i |-> i, x |-> x, t |-> t, v |-> v, e |-> 0]
RECURSIVE FillW(_, _, _, _)
FillW(w, x, k, v) == IF k = 0 THEN w ELSE SetBal(FillW(w, x, k - 1, v), x, k, v)

Ops == <<"bal", "bal", "add", "add", "sub", "sub", "fill", "nonce", "code", "store", "store", "store", "create", "kill", "refund", "log", "snap", "snap", "revert", "revert", "end", "end", "commit", "commit", "copy", "open", "prune", "restart", "touch">>
ManyOps == Ops \o <<"fill", "fill", "fill", "copy", "copy", "end", "revert", "revert", "sub", "bal">>
Step ==
    /\ ph = "run" /\ Len(hist) < MaxLen
    /\ \E i \in {Pick(On)} : \E o \in {IF many THEN ManyOps[Pick(1..Len(ManyOps))] ELSE Ops[Pick(1..Len(Ops))]} : \E x \in {Pick(Acc)} :
       \E t \in {IF many THEN Pick(Tok) ELSE Pick({1, 2})} : \E v \in {Pick(0..MaxV)} : \E k \in {Pick(Slot)} :
       LET w == dbs[i].w  st == dbs[i].stack IN
       CASE o = "bal"    -> Apply(i, R("bal", i, x, t, v), SetBal(w, x, t, v))
         [] o = "add"    -> Apply(i, R("add", i, x, t, v), AddBal(w, x, t, v))
         [] o = "touch"  -> Apply(i, R("add", i, x, t, 0), AddBal(w, x, t, 0))
         [] o = "sub"    -> \E u \in {Pick(0..w.acc[x].b[t])} : Apply(i, R("sub", i, x, t, u), SubBal(w, x, t, u))
         [] o = "fill"   -> IF many THEN \E n \in {Pick({15, 16, 17, 18, 19})} : \E u \in {Pick({0, 1, 1, 2})} :
                                              Apply(i, R("fill", i, x, n, u), FillW(w, x, n, u)) ELSE UNCHANGED <<dbs, com, hist>>
         [] o = "nonce"  -> Apply(i, R("nonce", i, x, 0, v), SetNonce(w, x, v))
         [] o = "code"   -> Apply(i, R("code", i, x, 0, v), SetCode(w, x, v))
         [] o = "store"  -> Apply(i, R("store", i, x, k, v), SetStore(w, x, k, v))
         [] o = "create" -> Apply(i, R("create", i, x, 0, 0), Create(w, x))
         [] o = "kill"   -> Apply(i, R("kill", i, x, 0, 0), Destroy(w, x))
         [] o = "refund" -> Apply(i, R("refund", i, 0, 0, v), AddRefund(w, v))
         [] o = "log"    -> Apply(i, R("log", i, 0, 0, 0), AddLog(w))
         [] o = "snap"   -> IF Len(st) >= 4 THEN UNCHANGED <<dbs, com, hist>> ELSE
                            dbs' = [dbs EXCEPT ![i].stack = Append(@, w)] /\ UNCHANGED com /\ Rec([R("snap", i, 0, 0, 0) EXCEPT !.e = Reads(w)])
         [] o = "revert" -> IF st = <<>> THEN UNCHANGED <<dbs, com, hist>> ELSE
                            \E n \in {Pick(1..Len(st))} :
                            dbs' = [dbs EXCEPT ![i].w = st[n], ![i].stack = SubSeq(@, 1, n - 1)] /\ UNCHANGED com /\ Rec([R("revert", i, 0, n, 0) EXCEPT !.e = Reads(st[n])])
         [] o = "end"    -> /\ dbs' = [dbs EXCEPT ![i].w = EndTx(w), ![i].stack = <<>>] /\ UNCHANGED com /\ Rec([R("end", i, 0, 0, 0) EXCEPT !.e = Reads(EndTx(w))])
         [] o = "commit" -> \E d \in {Pick({0, 1})} :
                            /\ dbs' = [dbs EXCEPT ![i].w = Commit(w), ![i].stack = <<>>, ![i].base = Len(com) + 1]
                            /\ com' = Append(com, [w |-> Commit(w), mem |-> TRUE, disk |-> d = 1])
                            /\ Rec([R("commit", i, 0, 0, d) EXCEPT !.e = Reads(Commit(w))])
         [] o = "copy"   -> IF Cardinality(On) >= 3 THEN UNCHANGED <<dbs, com, hist>> ELSE
                            /\ dbs' = Append(dbs, Db(CopyOf(w), dbs[i].base)) /\ UNCHANGED com
                            /\ Rec([R("copy", i, Len(dbs) + 1, 0, 0) EXCEPT !.e = Reads(CopyOf(w))])
         [] o = "open"   -> LET av == {c \in 1..Len(com) : com[c].mem \/ com[c].disk} IN IF av = {} THEN UNCHANGED <<dbs, com, hist>> ELSE
                            \E c \in {Pick(av)} :      \* in place of working state i
                            /\ dbs' = [dbs EXCEPT ![i] = Db(Opened(com[c].w), c)] /\ UNCHANGED com
                            /\ Rec([R("open", i, 0, c, 0) EXCEPT !.e = Reads(Opened(com[c].w))])
         [] o = "prune"  -> LET av == {c \in 1..(Len(com) - 1) : com[c].mem /\ \A j \in On : dbs[j].base # c} IN IF av = {} THEN UNCHANGED <<dbs, com, hist>> ELSE
                            \E c \in {Pick(av)} :
                            /\ com' = [com EXCEPT ![c].mem = FALSE] /\ UNCHANGED dbs
                            /\ Rec([R("prune", i, 0, c, 0) EXCEPT !.e = Reads(w)])
         [] o = "restart" -> LET av == {c \in 1..Len(com) : com[c].disk} IN IF av = {} THEN UNCHANGED <<dbs, com, hist>> ELSE
                            \E c \in {Pick(av)} :
                            /\ com' = [j \in 1..Len(com) |-> [com[j] EXCEPT !.mem = FALSE]]
                            /\ dbs' = Append([j \in Ids |-> [dbs[j] EXCEPT !.on = FALSE]], Db(Opened(com[c].w), c))
                            /\ Rec([R("restart", Len(dbs) + 1, 0, c, 0) EXCEPT !.e = Reads(Opened(com[c].w))])
    /\ UNCHANGED <<many, ph>>
Finish == /\ ph = "run" /\ Len(hist) = MaxLen /\ ph' = "done" /\ PrintT(<<"TRACE", ToJson(hist)>>) /\ UNCHANGED <<dbs, com, hist, many>>
Spec == Init /\ [][Step \/ Finish]_vars
NoNegative == \A i \in On : \A x \in Acc : \A t \in Tok : dbs[i].w.acc[x].b[t] >= 0
===========================================================================

--------------------------- MODULE NativeTokenMC ---------------------------
(* All short programs. *)
EXTENDS NativeToken

Tgts == {"P", "C1", "SYS"}
Args == [to : {"P", "C1", "MINT"}, tok : {"A", "WRAP"}, v : {0, 2}]
Inner == [to |-> "P", tok |-> "A", v |-> 1]
Calls == {[to |-> t, v |-> v] : t \in Tgts, v \in {0, 2}}
         \cup {[to |-> "XFER", v |-> 0, a |-> [to |-> x.to, tok |-> x.tok, v |-> x.v, a |-> Inner]] : x \in Args}
         \cup {[to |-> "MINT", v |-> 0, a |-> [to |-> "P", tok |-> t, v |-> 1]] : t \in {"A", "D", "WRAP"}}
         \cup {[to |-> "CURID", v |-> 1]}
Hows == {"call", "code", "deleg", "static"}
Next ==
    \/ fs = <<>> /\ \E to \in {"C1", "SYS", "P"}, tk \in {"D", "A"}, v \in {0, 2} : TxStep(to, v, tk, [to |-> to, a |-> Inner], FALSE)
    \/ n < MaxSteps /\ Len(fs) <= MaxDepth /\ \E h \in Hows, c \in Calls : (h # "call" => c.v = 0) /\ CallStep(h, c)
    \/ n < MaxSteps /\ StoreStep
    \/ n < MaxSteps /\ \E b \in {"P", "C1"} : KillStep(b)
    \/ \E h \in {"ret", "inv"} : EndStep(h)
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE WireMC ------------------------------
(* The format itself, over every small layout and value: what is written    *)
(* reads back, consuming exactly its bytes, whatever follows; no beginning  *)
(* of it is accepted; two values never share bytes; reading any small byte  *)
(* string never goes past it and what it gives is written and read the same.*)
EXTENDS Wire, Integers
CONSTANTS Alphabet, MaxLen, MaxIn
VARIABLES s, v, ph
vars == <<s, v, ph>>
Str(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Atoms == {<<"int", 1>>, <<"int", 2>>, <<"big">>, <<"fix", 1>>, <<"bool">>, <<"bytes", 1>>, <<"bytes", 2>>, <<"tok">>}
One(T) == {<<"list", 1, T>>, <<"list", 2, T>>, <<"opt", T>>, <<"arr", 2, T>>}
Layouts == Atoms \cup UNION {One(T) : T \in Atoms} \cup {<<"rec", <<<<"A", T>>, <<"B", U>>>>>> : T, U \in Atoms}
           \cup {<<"list", 1, <<"list", 1, <<"int", 1>>>>>>, <<"opt", <<"list", 1, <<"bool">>>>>>, <<"list", 1, <<"opt", <<"bool">>>>>>}
Min(n) == {b \in Str(n) : b = <<>> \/ b[1] # 0}
RECURSIVE Vals(_)
Vals(l) == CASE l[1] \in {"int", "fix"} -> [1..l[2] -> Alphabet]
             [] l[1] = "big" -> Min(2)
             [] l[1] = "bool" -> BOOLEAN
             [] l[1] = "bytes" -> Str(2)
             [] l[1] = "tok" -> {<<>>} \cup {<<<<i, a>>>> : i \in Min(1), a \in Min(1)} \cup {<<<< <<>>, a>>, <<<<1>>, c>>>> : a \in Min(1), c \in Min(1)}
             [] l[1] = "list" -> UNION {[1..k -> Vals(l[3])] : k \in 0..MaxLen}
             [] l[1] = "arr" -> [1..l[2] -> Vals(l[3])]
             [] l[1] = "opt" -> {<<>>} \cup {<<x>> : x \in Vals(l[2])}
             [] l[1] = "rec" -> {<<x, y>> : x \in Vals(l[2][1][2]), y \in Vals(l[2][2][2])}
Init == s \in Layouts /\ v = <<>> /\ ph = 0
Choose == ph = 0 /\ \E x \in Vals(s) : v' = x /\ ph' = 1 /\ UNCHANGED s
Input == ph = 0 /\ \E x \in Str(MaxIn) : v' = x /\ ph' = 2 /\ UNCHANGED s
Spec == Init /\ [][Choose \/ Input]_vars
Tails == {<<>>, <<0>>, <<1, 2>>}
RoundTrip == ph = 1 => \A t \in Tails : LET b == Enc(s, v) r == Dec(s, b \o t, 0)
                                        IN r[1] = "ok" /\ Enc(s, r[2]) = b /\ Kept(s, r[2]) = Kept(s, v) /\ r[3] = Len(b)
NoPrefix == ph = 1 => LET b == Enc(s, v) IN \A k \in 0..(Len(b) - 1) : Dec(s, SubSeq(b, 1, k), 0)[1] = "bad"
Total == ph = 2 => LET r == Dec(s, v, 0)
                   IN /\ r[1] \in {"ok", "bad", "open"}
                      /\ r[1] = "ok" => /\ r[3] <= Len(v)
                                        /\ LET b == Enc(s, r[2]) q == Dec(s, b, 0) IN q[1] = "ok" /\ q[3] = Len(b) /\ Kept(s, q[2]) = Kept(s, r[2]) /\ Len(b) <= r[3]
============================================================================

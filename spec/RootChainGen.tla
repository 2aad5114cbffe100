--------------------------- MODULE RootChainGen ---------------------------
(* Behaviours of RootChain as operation lists with the expected outcome.     *)
EXTENDS RootChain, Json
VARIABLES hist, ph
gvars == <<vars, hist, ph>>
ThreeShards == {1, 2, 3}
StartHeights == [s \in {1, 2, 3} |-> IF s = 3 THEN 1 ELSE 0]

GInit == Init /\ hist = <<[op |-> "C", per |-> MaxPer]>> /\ ph = "make"
Rec(r) == hist' = Append(hist, r)
Pick(S) == RandomElement(S)

Muts == {"height", "time", "td", "merkle", "root", "amount", "amount2", "version", "extra", "track"}
Parents == {<<s, p>> \in Shards \X ({0} \cup MIds) : IF p = 0 THEN \A m \in MIds : mb[m].s = s => mb[m].p # 0 ELSE mb[p].s = s}
\* root blocks a shard block on p may depend on: later ones of the same branch (or, sometimes, any)
GoodR(p) == {r \in RIds : IF p = 0 THEN TRUE ELSE mb[p].r \in RChain(r)}

\* long lists: most headers go on top of shard 1's highest ones, so that its branches part late
MTop == CHOOSE h \in {mb[m].h : m \in {m \in MIds : mb[m].s = 1}} : \A m \in MIds : mb[m].s = 1 => mb[m].h <= h
Tops == IF \E m \in MIds : mb[m].s = 1 THEN {m \in MIds : mb[m].s = 1 /\ mb[m].h >= MTop - 1} ELSE {}

MakeMinor ==
    /\ ph = "make" /\ Len(mb) < MaxM
    /\ \E w \in {Pick(1..8)} :
       \E c \in {IF MaxPer > 2 /\ w > 3 /\ Tops # {} THEN <<1, Pick(Tops)>> ELSE Pick(Parents \cup {<<s, 0>> : s \in Shards})} :
       \E r \in {IF w = 1 THEN Pick(RIds) ELSE Pick(GoodR(c[2]))} :
       \E dt \in {IF w = 2 THEN 4 ELSE 1} : \E q \in {Pick({0, 2, 5})} : \E x \in {Pick({0, 0, 1, 4})} :
          /\ NewMinor(c[1], c[2], r, dt, q, x)
          /\ Rec([op |-> "M", id |-> Len(mb) + 1, s |-> c[1], p |-> c[2], r |-> r, t |-> mb'[Len(mb) + 1].t, q |-> q, x |-> x])
    /\ UNCHANGED ph

\* a good list on parent p: for each shard some path continuing the confirmed header
RECURSIVE Path(_, _)
Path(a, e) == IF e = a \/ e = 0 THEN <<>> ELSE Append(Path(a, mb[e].p), e)   \* from (excluding) a to e
RECURSIVE Anc(_)
Anc(m) == IF m = 0 THEN {0} ELSE {m} \cup Anc(mb[m].p)
Ends(p, s) == {0} \cup {m \in MIds : mb[m].s = s /\ Conf(p, s) \in Anc(m)
                          /\ Len(Path(Conf(p, s), m)) <= MaxPer
                          /\ \A k \in 1..Len(Path(Conf(p, s), m)) : mb[Path(Conf(p, s), m)[k]].r \in RChain(p)}
Seg(p, s, e) == IF e = 0 THEN <<>> ELSE Path(Conf(p, s), e)
\* another header of the same shard and height, if there is one
Alike(a, m) == LET S == {b \in MIds : b # a /\ mb[b].s = mb[a].s /\ mb[b].h = mb[a].h} IN IF S = {} THEN m ELSE Pick(S)
\* one arbitrary damage to a list
Damage(l, k, i, m) == IF l = <<>> THEN <<m>> ELSE
    LET j == ((i - 1) % Len(l)) + 1 IN
    CASE k = 1 -> SubSeq(l, 1, j - 1) \o SubSeq(l, j + 1, Len(l))     \* leave one out
      [] k = 2 -> SubSeq(l, 1, j) \o SubSeq(l, j, Len(l))             \* repeat one
      [] k = 3 -> [l EXCEPT ![j] = m]                                 \* replace one
      [] k = 4 -> Append(l, m)
      [] k = 5 -> <<m>> \o l
      [] k = 6 -> SubSeq(l, j, Len(l)) \o SubSeq(l, 1, j - 1)         \* rotate
      [] k = 7 -> [l EXCEPT ![Len(l)] = Alike(l[Len(l)], m)]
      [] k = 8 -> [l EXCEPT ![j] = Alike(l[j], m)]
      [] k = 9 -> LET S == {x \in 3..Len(l) : mb[l[x]].s = mb[l[x-2]].s /\ Alike(l[x], 0) # 0} IN
                  IF S = {} THEN l ELSE LET x == Pick(S) IN [l EXCEPT ![x] = Alike(l[x], 0)]
      [] OTHER -> l
Far(p, E) == CHOOSE e \in E : \A f \in E : Len(Seg(p, 1, f)) <= Len(Seg(p, 1, e))
GoodRoots == {i \in RIds : \A j \in RChain(i) : Valid(j, MIds)}
GMaxH == CHOOSE h \in {rb[i].h : i \in GoodRoots} : \A i \in GoodRoots : rb[i].h <= h
MakeRoot ==
    /\ ph = "make" /\ Len(rb) < MaxR + 1 /\ Len(mb) > 0
    /\ \E w \in {Pick(1..10)} : \E v \in {Pick(1..3)} :
       \E p \in {IF w = 1 THEN Pick(RIds) ELSE IF v = 1 THEN Pick(GoodRoots) ELSE Pick({i \in GoodRoots : rb[i].h >= GMaxH - 1})} :
       \E d \in {Pick(1..MaxD)} :
       \E k \in {Pick(1..8)} : \E i \in {Pick(1..6)} : \E m \in {Pick(MIds)} :
       \E e1 \in {IF MaxPer > 2 /\ i # 1 THEN Far(p, Ends(p, 1)) ELSE Pick(Ends(p, 1))} : \E e2 \in {Pick(Ends(p, 2))} : \E e3 \in {IF rb[p].h < 1 /\ w # 3 THEN 0 ELSE Pick(Ends(p, 3))} :
       \E l \in {LET g == Seg(p, 1, e1) \o Seg(p, 2, e2) \o Seg(p, 3, e3) IN IF w <= 3 THEN Damage(g, IF MaxPer > 2 /\ w > 1 /\ v # 1 THEN 9 ELSE k, i, m) ELSE g} :
       \E mut \in {IF w = 4 THEN Pick(Muts) ELSE "none"} :
          /\ NewRoot(p, d, l, mut)
          /\ Rec([op |-> "R", id |-> Len(rb) + 1, p |-> p, d |-> d, l |-> l, mut |-> mut, t |-> rb'[Len(rb) + 1].t,
                  q |-> rb'[Len(rb) + 1].aq, x |-> rb'[Len(rb) + 1].ax])
    /\ UNCHANGED ph

Start == /\ ph = "make" /\ Len(mb) = MaxM /\ Len(rb) = MaxR + 1
         /\ ph' = "run" /\ UNCHANGED <<vars, hist>>

RunValid ==
    /\ ph = "run" /\ vM # MIds
    /\ \E m \in {Pick(MIds \ vM)} : Validated(m) /\ Rec([op |-> "v", id |-> m])
    /\ UNCHANGED ph
Children(i) == {j \in RIds : rb[j].p = i /\ rb[j].mut # "height"}   \* a batch must be a path by height
Post(b) == [op |-> "dr", b |-> b, ok |-> Taken(b, kR) = b \/ Len(Taken(b, kR)) + Cardinality(Rng(b) \cap kR) = Len(b),
            taken |-> Taken(b, kR), dup |-> Rng(b) \cap kR # {}, head |-> head', conf |-> [j \in 1..Len(Taken(b, kR)) |-> Confs(Taken(b, kR)[j])]]
RunRoot ==
    /\ ph = "run"
    /\ \E w \in {Pick(1..8)} :
       \E i \in {IF w > 2 /\ {j \in RIds : Acceptable(j)} # {} THEN Pick({j \in RIds : Acceptable(j)}) ELSE Pick(RIds \ {1})} :
       \E b \in {IF w = 5 /\ i \notin kR /\ Children(i) # {} THEN <<i, Pick(Children(i))>> ELSE <<i>>} :
         Deliver(b) /\ Rec(Post(b))
    /\ UNCHANGED ph
\* at the end every root block still outside, with its parent inside, is delivered once more: none is acceptable
RECURSIVE Refused(_)
Refused(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN
              <<[op |-> "dr", b |-> <<i>>, ok |-> FALSE, taken |-> <<>>, dup |-> FALSE, head |-> head, conf |-> <<>>]>> \o Refused(S \ {i})
Sweep == /\ ph = "run" /\ vM = MIds /\ ~\E i \in RIds : Acceptable(i)
         /\ hist' = hist \o Refused({i \in RIds \ kR : rb[i].p \in kR})
         /\ ph' = "end" /\ UNCHANGED vars
Finish == /\ ph = "end"
          /\ PrintT(<<"TRACE", ToJson(hist)>>)
          /\ ph' = "done" /\ UNCHANGED <<vars, hist>>
GNext == MakeMinor \/ MakeRoot \/ Start \/ RunValid \/ RunRoot \/ Sweep \/ Finish
GSpec == GInit /\ [][GNext]_gvars
=============================================================================

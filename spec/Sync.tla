-------------------------------- MODULE Sync --------------------------------
(* One synchronisation attempt against one peer (cluster/sync).              *)
(*                                                                           *)
(* The peer's chain is the heights 0..M; this node knows exactly the heights *)
(* 0..K of it (K = -1: not even the genesis) and its own tip is at height L. *)
(* An attempt is a sequence of requests, each answered honestly or with a    *)
(* deviation: first the search for a common ancestor (samples of header      *)
(* heights), then rounds of a list of headers followed by the blocks in      *)
(* batches.  The deviation Dev is injected at the At-th answer of its phase. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Root,      \* root chain task: floor of the sample count, and a shortcut when the announced block extends the tip
          Samples,   \* headers asked for in one search request
          Stale,     \* the search looks no further back than this
          Headers,   \* headers asked for at a time
          Batch      \* blocks asked for at a time
VARIABLES L, M, K, heavier, dev, at,     \* the case
          ph, start, end, best, anc, top, next, lo, hi, err, seen, fired, grown
vars == <<L, M, K, heavier, dev, at, ph, start, end, best, anc, top, next, lo, hi, err, seen, fired, grown>>
case == <<L, M, K, heavier, at>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
NoHeight == 0 - 2

\* deviations every attempt must notice: it ends with an error and takes nothing from the answer or any later one
SearchDetect == {"search-error", "search-empty", "search-short", "search-long", "search-range"} \cup (IF Root THEN {"search-light"} ELSE {})
HeadDetect == {"head-error", "head-empty", "head-short", "head-long", "head-unlinked", "head-seal", "head-other", "head-gap"} \cup (IF Root THEN {"head-light"} ELSE {})
BlockDetect == {"block-error", "block-empty", "block-short", "block-long", "block-swap", "block-other", "block-known", "add-fails"} \cup (IF Root THEN {"minor-fails"} ELSE {})
Detect == SearchDetect \cup HeadDetect \cup BlockDetect
\* and what it may not notice: headers nobody knows or in another order (the search then goes on elsewhere); an honest peer whose chain grows
Lies == {"search-fake", "search-order"}
Honest == {"none", "grow"}
DevPhase(d) == IF d \in SearchDetect \cup Lies THEN "search" ELSE IF d \in HeadDetect THEN "heads" ELSE IF d \in BlockDetect THEN "blocks" ELSE "none"

Skip == IF Root THEN ~heavier ELSE M <= L \/ K >= M
SInit(l, m, k, h, d, a) ==
  /\ L = l /\ M = m /\ K = k /\ heavier = h /\ dev = d /\ at = a
  /\ ph = "start" /\ start = 0 /\ end = 0 /\ best = NoHeight /\ anc = NoHeight /\ top = m /\ next = 0
  /\ lo = NoHeight /\ hi = NoHeight /\ err = FALSE /\ seen = 0 /\ fired = FALSE /\ grown = 0

Stop(e) == ph' = "done" /\ err' = e
Same == UNCHANGED <<L, M, K, heavier, dev, at>>

Begin ==
  /\ ph = "start" /\ Same /\ UNCHANGED <<best, top, next, lo, hi, seen, fired, grown>>
  /\ IF Skip \/ K >= M THEN Stop(FALSE) /\ UNCHANGED <<start, end, anc>>
     ELSE IF Root /\ M = L + 1 /\ K = L THEN ph' = "heads" /\ anc' = L /\ UNCHANGED <<start, end, err>>
     ELSE ph' = "search" /\ start' = Max(L - Stale, 0) /\ end' = Min(L, M) /\ UNCHANGED <<anc, err>>

\* is the answer about to be given the one that deviates?
Fire(p) == ~fired /\ DevPhase(dev) = p /\ seen + 1 = at
Count(p) == seen' = (IF DevPhase(dev) = p THEN seen + 1 ELSE seen) /\ fired' = (fired \/ Fire(p))
\* the peer's chain may grow between any two answers (the tip it reports with root headers is then the new one)
Grow == IF dev = "grow" /\ grown < at THEN grown' \in {grown, grown + 1} ELSE UNCHANGED grown

\* a lie in the search: the heights it seems to share with this node
Claims == {0 - 1} \cup 0..K

Span == (end - start) \div Samples + 1
Lim == IF Root THEN (end + 1 - start) \div Span ELSE (end + 1 - start + Span - 1) \div Span
Asked == Min(Lim, (top - start) \div Span + 1)      \* the i-th header of the answer (0 <= i < Asked) has height start + i * Span
Search ==
  /\ ph = "search" /\ Same /\ UNCHANGED <<next, lo, hi>>
  /\ IF end < start THEN /\ UNCHANGED <<start, end, best, seen, fired, top, grown>>
                         /\ (IF best = NoHeight THEN Stop(TRUE) /\ UNCHANGED anc ELSE ph' = "heads" /\ anc' = best /\ UNCHANGED err)
     ELSE /\ Count("search") /\ Grow /\ top' = (IF Root THEN M + grown' ELSE top)
          /\ IF Fire("search") /\ dev \in Detect THEN Stop(TRUE) /\ UNCHANGED <<start, end, best, anc>>
             ELSE \E c \in (IF Fire("search") THEN Claims ELSE {K}) :
                  LET i == IF c < start THEN 0 - 1 ELSE Min(Asked - 1, (c - start) \div Span)   \* the last one known here
                      k == start + i * Span
                      e == IF i = Asked - 1 THEN end ELSE k + Span - 1 IN                       \* below the first one not known
                  IF i >= 0 /\ k = e THEN ph' = "heads" /\ anc' = k /\ end' = e /\ UNCHANGED <<start, best, err>>
                  ELSE /\ end' = e /\ UNCHANGED <<ph, err, anc>>
                       /\ IF i < 0 THEN UNCHANGED <<start, best>> ELSE start' = k + 1 /\ best' = k

Heads ==
  /\ ph = "heads" /\ Same /\ UNCHANGED <<start, end, best, anc, lo, hi>>
  /\ IF anc >= top THEN Stop(FALSE) /\ UNCHANGED <<next, seen, fired, top, grown>>
     ELSE /\ Count("heads") /\ Grow /\ top' = (IF Root THEN M + grown' ELSE top)
          /\ IF Fire("heads") THEN Stop(TRUE) /\ UNCHANGED next
             ELSE ph' = "blocks" /\ next' = anc + Min(Headers, top - anc) /\ UNCHANGED err

Blocks ==
  /\ ph = "blocks" /\ Same /\ UNCHANGED <<start, end, best, next, top, grown>>
  /\ Count("blocks")
  /\ IF Fire("blocks") THEN Stop(TRUE) /\ UNCHANGED <<anc, lo, hi>>
     ELSE LET last == Min(anc + Batch, next) IN
          /\ anc' = last /\ hi' = last /\ lo' = (IF lo = NoHeight THEN anc + 1 ELSE lo)
          /\ ph' = (IF last = next THEN "heads" ELSE "blocks") /\ UNCHANGED err
Next == Begin \/ Search \/ Heads \/ Blocks

-----------------------------------------------------------------------------
Reach == K >= 0 /\ K >= L - Stale     \* the common ancestor is within reach
\* every block handed over links to one that is known or was handed over just before
Linked == lo # NoHeight => lo <= K + 1 /\ hi >= lo
Complete == ph = "done" /\ dev \in Honest /\ ~Skip /\ K < M /\ Reach => ~err /\ hi >= M /\ hi <= M + grown
SkipsQuietly == ph = "done" /\ (Skip \/ K >= M) => ~err /\ lo = NoHeight
Noticed == ph = "done" /\ fired /\ dev \in Detect => err
\* a lie about the headers cannot make the attempt take a block of no use: it starts at a known ancestor and ends at the tip
Harmless == ph = "done" /\ dev \in Lies /\ ~err /\ ~Skip /\ K < M => hi = M
Ends == <>(ph = "done")
=============================================================================

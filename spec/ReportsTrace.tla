------------------------------ MODULE ReportsTrace --------------------------------
(* The reports a sliding window leaves: [stream, eps4, dim, dbg, ev]; "labels" [k points fed,
   keys, labels] along the stream and one "reports" event at its end [k points fed; data (points handed on); points (of each report, in order), bars (of each)].
   The window is reported after every Report-th point beyond the first full window, and what
   was last handed on once more at the end of a stream that does not end on such a point.
   With debugging on each report comes with the barcode of the maintained complex.        *)
EXTENDS WindowTrace
Ph == INSTANCE Persistence

Reported(r, i) == LET h == Handing(r, i)
                  IN  [w |-> h.w, key |-> h.key, dirty |-> h.dirty, first |-> h.first, out |-> h.out,
                       rep |-> IF i % Report = 0 /\ i > W THEN Append(r.rep, Positions(h.w)) ELSE r.rep]
RECURSIVE FeedR(_, _, _)
FeedR(A, i, k) == IF i = k THEN A
    ELSE FeedR(UNION { { Reported([w |-> r.w, key |-> r.key, dirty |-> r.dirty, first |-> st.first, out |-> st.out, rep |-> st.rep], i+1) :
                         r \in Consume([w |-> st.w, key |-> st.key, dirty |-> st.dirty], T.stream[i+1]) } : st \in A }, i+1, k)
AtEnd(st, k) == IF k % Report # 0 /\ st.out # << >> THEN Append(st.rep, st.out) ELSE st.rep
BarsOf(st) ==
    LET n == Len(st.first)
        D == TLCEval([u \in 1..n |-> [v \in 1..n |-> 4 * Sq(st.first[u], st.first[v])]])
        K == Ph!BuildRips(n, D, T.eps4, FALSE, T.dim)
    IN  Ph!FullBarcode(n, K, D, T.eps4, T.dim)
Explains(st) ==
    /\ E.data = st.out
    /\ E.points = AtEnd(st, E.k)
    /\ IF T.dbg THEN Len(E.bars) = Len(E.points) /\ (Len(E.bars) > 0 =>
                     LET B == BarsOf(st) IN \A i \in 1..Len(E.bars) : Ph!MOfSeq(E.bars[i]) = B)
       ELSE E.bars = << >>
RInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ at = 0
         /\ S = {[w |-> << >>, key |-> 0, dirty |-> {}, first |-> << >>, out |-> << >>, rep |-> << >>]}
Labelled(st) == E.keys = [i \in 1..Len(st.w) |-> st.w[i].k] /\ E.labels = [i \in 1..Len(st.w) |-> st.w[i].p]
RNext == /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
         /\ at' = (IF E.e = "crash" THEN at ELSE E.k)
         /\ S' = CASE E.e = "labels" -> { st \in FeedR(S, at, E.k) : Labelled(st) }
                   [] E.e = "reports" /\ E.k = Len(T.stream) -> { st \in FeedR(S, at, E.k) : Explains(st) }
                   [] OTHER -> {}
         /\ ok' = (S' # {})
RSpec == RInit /\ [][RNext]_vars
================================================================================

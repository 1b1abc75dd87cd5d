------------------------------- MODULE Gf2Trace --------------------------------
(* Recorded calls of the two reduction routines; matrices as sequences of sets given as
   sequences of positions.  [w] is the number of columns.                            *)
EXTENDS Gf2, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok
vars == <<c, l, ok>>
E == Traces[c].ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
S(q) == { q[i] : i \in 1..Len(q) }
M(q) == [i \in 1..Len(q) |-> S(q[i])]
RankOk == E.same /\ S(E.r) = Grows(M(E.m)) /\ Len(E.r) = Cardinality(S(E.r))
RedOk == /\ E.same /\ E.good
         /\ E.rank = RankOf(M(E.m))
         /\ E.nul = IF Len(E.m) = 0 THEN 0 ELSE E.w - RankOf(M(E.m))
         /\ SameSpan(M(E.m), M(E.r)) /\ Len(E.r) = Len(E.m)
BndOk == LET I == Incidence(M(E.f), M(E.s))
         IN  /\ E.good
             /\ E.rank = RankOf(I) /\ E.nul = Len(E.s) - RankOf(I)
             /\ SameSpan(I, M(E.r))
FaceOk == LET v == IF IsFace(S(E.f), S(E.s)) THEN 1 ELSE 0 IN E.b = v /\ E.p = v /\ E.x = v
SizeOk == LET want == SelectSeq(E.in, LAMBDA x : Len(x.s) = E.n /\ x.w =< E.lim)
          IN  E.b = [i \in 1..Len(want) |-> want[i].s] /\ E.p = E.b
TraceNext == /\ ok /\ l =< Len(Traces[c].ev) /\ l' = l + 1 /\ c' = c
             /\ ok' = CASE E.e = "rank" -> RankOk [] E.e = "red" -> RedOk [] E.e = "bnd" -> BndOk
                        [] E.e = "face" -> FaceOk [] E.e = "nsim" -> SizeOk [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
===============================================================================

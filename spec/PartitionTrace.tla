---------------------------- MODULE PartitionTrace -----------------------------
EXTENDS Partition, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok
vars == <<c, l, ok>>
E == Traces[c].ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
ElemsOf(q) == { q[k] : k \in 1..Len(q) }
SepOk == LET w == ByLabel(E.X, E.L, E.k) IN E.idx = w /\ E.pts = Points(E.X, w)
RadOk == LET w == ByRadius(E.X, E.C, E.rad) IN E.idx = w /\ E.pts = Points(E.X, w)
BndOk == LET w == ByBoundary(E.X, E.L, [j \in 1..Len(E.B) |-> ElemsOf(E.B[j])]) IN E.pts = Points(E.X, w)
CoverOk == E.r = CoverSq(E.X, E.C, E.L)
NearOk == E.same /\ E.r = [j \in 1..Len(E.C) |-> Sq(E.p, E.C[j])]
MapOk == /\ Len(E.r) = Len(E.in) /\ E.key
         /\ \A j \in 1..Len(E.in) : LET w == MapBack(E.table, ElemsOf(E.in[j]))
                                    IN  ElemsOf(E.r[j]) = w /\ Len(E.r[j]) = Cardinality(w)
TraceNext == /\ ok /\ l =< Len(Traces[c].ev) /\ l' = l + 1 /\ c' = c
             /\ ok' = CASE E.e = "sep" -> SepOk [] E.e = "sepr" -> RadOk [] E.e = "sepb" -> BndOk [] E.e = "rad" -> CoverOk
                        [] E.e = "nn" -> NearOk [] E.e = "map" -> MapOk [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
===============================================================================

------------------------------ MODULE KMeansTrace -------------------------------
(* [X, k, z, small, ev]: "result" [C, L, hull, full, files]; labels from 1.  An empty
   centroid comes with its own denominator, or n = 0 when none fits.                  *)
EXTENDS KMeans, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok
vars == <<c, l, ok>>
T == Traces[c]
E == T.ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
Kept(C, L) == SelectSeq([j \in 1..Len(C) |-> j], LAMBDA j : C[j].n > 0)
Same(r, C, L) == /\ r.L = L /\ Len(r.C) = Len(C)
                 /\ \A j \in 1..Len(C) : C[j].n > 0 /\ SamePlace(r.C[j], C[j])
\* every point is nearest to its own centroid among those whose position is known exactly
NearKnown(X, C, L) == \A i \in 1..Len(X) : \A j \in 1..Len(C) : C[j].n = 0 \/ NoFarther(X[i], C[L[i]], C[j])
ResultOk ==
    /\ Len(E.C) = Size(T.X, T.k)
    /\ Len(E.L) = Len(T.X) /\ \A i \in 1..Len(E.L) : E.L[i] \in 1..Len(E.C)
    /\ MeansExact(T.X, E.C, E.L)
    /\ E.hull /\ E.full /\ E.files
    /\ (T.z >= 200 => NearKnown(T.X, E.C, E.L))
    /\ (T.small => \E r \in Outcomes(T.X, T.k, T.z) : Same(r, E.C, E.L))
TraceNext == /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
             /\ ok' = CASE E.e = "result" -> ResultOk [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

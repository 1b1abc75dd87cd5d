------------------------------- MODULE DistTrace -------------------------------
(* Recorded runs of the distance and neighbourhood stages: [P, lim, ev]
     "dist": [m] entries projected onto 4*d^2, [w] the filtration values projected
     "nbr":  [vertices] after the neighbourhood stage                              *)
EXTENDS Dist
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok
T == Traces[c]
E == T.ev[l]
tvars == <<c, l, ok, vars>>
AsSet(q) == { q[k] : k \in 1..Len(q) }
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
             /\ P = <<>> /\ lim = 0 /\ i = 0 /\ j = 0 /\ M = <<>> /\ W = {}
NonEmpty == SelectSeq(T.P, LAMBDA p : Len(p) > 0)
Step ==
    \/ E.e = "dist" /\ ok' = (NonEmpty = T.P => E.m = DistMatrix(T.P) /\ AsSet(E.w) = Values(T.P, T.lim))
    \/ E.e = "nbr" /\ ok' = (E.vertices = Len(NonEmpty))
    \/ E.e = "crash" /\ ok' = FALSE
TraceNext == ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c /\ UNCHANGED vars /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == ok
===============================================================================

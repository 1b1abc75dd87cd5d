------------------------------ MODULE DbscanTrace -------------------------------
EXTENDS Dbscan, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok
vars == <<c, l, ok>>
T == Traces[c]
E == T.ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
TraceNext == /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
             /\ ok' = CASE E.e = "labels" -> E.same /\ Len(E.l) = Len(T.X) /\ Valid(T.X, E.r, E.p, E.l) [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

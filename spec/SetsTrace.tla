------------------------------ MODULE SetsTrace -------------------------------
(* Recorded calls: [ev] with "set" [w, a, b, r, u, same], "sub" [kind, k, a, r].      *)
EXTENDS Sets, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok
vars == <<c, l, ok>>
E == Traces[c].ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
SetOk == LET A == RangeOf(E.a) B == RangeOf(E.b)
         IN  /\ E.r = Sorted(Result(E.w, A, B)) /\ E.u = Sorted(Second(E.w, A, B)) /\ E.same
SubOk == LET want == IF E.kind = "k" THEN SubsetSeqs(Sorted(RangeOf(E.a)), E.k)
                     ELSE IF Len(E.a) = 0 THEN {}
                     ELSE SubsetSeqs(IF E.kind = "v" THEN E.a ELSE Sorted(RangeOf(E.a)), Len(E.a) - 1)
         IN  Len(E.r) = Cardinality(want) /\ RangeOf(E.r) = want
TraceNext == /\ ok /\ l =< Len(Traces[c].ev) /\ l' = l + 1 /\ c' = c
             /\ ok' = CASE E.e = "set" -> SetOk [] E.e = "sub" -> SubOk [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
===============================================================================

------------------------------ MODULE ConfigTrace -------------------------------
(* [args, ev]: "parsed" and "planned" give the option map of the real parser, which
   keeps nothing from one argument list to the next and leaves the list alone.         *)
EXTENDS Config, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok, g
vars == <<c, l, ok, g>>
E == Traces[c].ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ g = Default
Same(m) == \A o \in Options : o \in DOMAIN m /\ m[o] = g'[o]
TraceNext == /\ ok /\ l =< Len(Traces[c].ev) /\ l' = l + 1 /\ c' = c
             /\ \/ E.e = "parsed" /\ g' = Parse(E.args) /\ ok' = (Same(E.m) /\ E.same)
                \/ E.e = "printed" /\ UNCHANGED g /\ ok' = Same(E.m)
                \/ E.e = "given" /\ g' = [o \in Options |-> E.m[o]] /\ ok' = TRUE
                \/ E.e = "planned" /\ g' = Plan(g) /\ ok' = Same(E.m)
                \/ E.e = "crash" /\ ok' = FALSE /\ UNCHANGED g
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

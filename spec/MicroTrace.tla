------------------------------- MODULE MicroTrace --------------------------------
(* [dim, born, ev]: "ins" [x, k]; "gap" (so long that what was there weighs nothing);
   "see" [x, k, wt, c, r2, m2, born, same]: weight at tick k times 2^10, centre times 2^10,
   squared radius and squared radius predicted for x times 2^8, creation time.          *)
EXTENDS Micro, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok, mc, faded
vars == <<c, l, ok, mc, faded>>
T == Traces[c]
E == T.ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ mc = Empty(T.dim, T.born) /\ faded = FALSE
Near(a, b, tol) == Abs(a - b) =< tol
Sq2(m) == Fix(R2num(m), R2den(m), 256)
After(x, u) == Add(IF faded THEN Empty(T.dim, T.born) ELSE mc, x, u)
SeeOk == /\ E.same /\ E.born = mc.born
         /\ IF faded \/ mc.w = 0 THEN Near(E.wt, 0, 1) ELSE Near(E.wt, Fix(mc.w, Pow(2, E.k), 1024), 2)
         /\ mc.w > 0 => /\ \A d \in 1..T.dim : Near(E.c[d], Fix(mc.ls[d], mc.w, 1024), 2)
                        /\ Near(E.r2, Sq2(mc), 2)
         /\ mc.w > 0 => Near(E.m2, Sq2(After(E.x, Pow(2, E.k))), 2)
TraceNext == /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
             /\ mc' = IF E.e = "ins" THEN After(E.x, Pow(2, E.k)) ELSE mc
             /\ faded' = (E.e = "gap" \/ (faded /\ E.e # "ins"))
             /\ ok' = CASE E.e \in {"ins", "gap"} -> TRUE [] E.e = "see" -> SeeOk [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

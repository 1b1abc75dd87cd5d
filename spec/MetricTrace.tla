------------------------------ MODULE MetricTrace ------------------------------
(* Runs of the real code on related inputs.  A trace is a family of runs
     [n, ev], ev[i] = [D, lim, dims, perm, sc, b]
   where run i is meant to present the metric of run 1 with point p of run 1 renamed
   to perm[p+1], weights multiplied by sc, and possibly another configured dimension.
   The step checks that the family is what it claims to be (a relation on inputs) and
   that the reported intervals transform the same way (a relation on outputs).      *)
EXTENDS Persistence, Json

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok
vars == <<c, l, ok>>
T == Traces[c]
E == T.ev[l]

Min2(a, b) == IF a < b THEN a ELSE b
IsRenaming(p) == { p[i] : i \in 1..T.n } = 0..(T.n - 1)
SameMetric(x, y) ==
    /\ IsRenaming(y.perm)
    /\ \A u, v \in 0..(T.n - 1) : u < v =>
         EdgeW(y.D, y.perm[u+1], y.perm[v+1]) = y.sc * EdgeW(x.D, u, v)
    /\ y.lim = y.sc * x.lim

BarsOf(q, top, sc) ==
    LET s == SelectSeq(q, LAMBDA b : b[1] < top)
    IN  MOfSeq([i \in 1..Len(s) |-> <<s[i][1], sc * s[i][2], sc * s[i][3]>>])

Run ==
    /\ E.e = "run"
    /\ LET x == T.ev[1]
           top == Min2(x.dims, E.dims)
       IN  ok' = /\ Assert(SameMetric(x, E), <<"not a presentation of the same metric", c, l>>)
                 /\ BarsOf(E.b, top, 1) = BarsOf(x.b, top, E.sc)
                 /\ \A i \in 1..Len(E.b) : E.b[i][1] \in 0..(E.dims - 1) /\ E.b[i][2] >= 0
Crash == E.e = "crash" /\ ok' = FALSE

TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
TraceNext == ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c /\ (Run \/ Crash)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
===============================================================================

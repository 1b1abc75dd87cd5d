------------------------------ MODULE KdTreeTrace -------------------------------
(* [X, ev]: X are the points the tree was built on; "range" [q, r, idx, pts, both] and
   "near" [q, idx, pt, pair].  Positions count from 0.                                *)
EXTENDS KdTree, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok
vars == <<c, l, ok>>
T == Traces[c]
E == T.ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
ElemsOf(q) == { q[i] : i \in 1..Len(q) }
RangeOk == LET W == { i - 1 : i \in Within(T.X, E.q, E.r) }
           IN  /\ ElemsOf(E.idx) = W /\ Len(E.idx) = Cardinality(W)
               /\ Len(E.pts) = Len(E.idx) /\ \A k \in 1..Len(E.idx) : E.pts[k] = T.X[E.idx[k] + 1]
               /\ Len(E.both) = Len(E.idx) /\ { E.both[k][2] : k \in 1..Len(E.both) } = W
               /\ \A k \in 1..Len(E.both) : E.both[k][1] = T.X[E.both[k][2] + 1]
NearOk == LET m == LeastSq(T.X, E.q)
          IN  /\ E.idx \in 0..(Len(T.X) - 1) /\ Sq(T.X[E.idx + 1], E.q) = m
              /\ E.pt \in ElemsOf(T.X) /\ Sq(E.pt, E.q) = m
              /\ E.pair[2] \in 0..(Len(T.X) - 1) /\ E.pair[1] = T.X[E.pair[2] + 1] /\ Sq(E.pair[1], E.q) = m
TraceNext == /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
             /\ ok' = CASE E.e = "range" -> RangeOk [] E.e = "near" -> NearOk [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

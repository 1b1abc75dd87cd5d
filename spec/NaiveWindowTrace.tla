---------------------------- MODULE NaiveWindowTrace -----------------------------
(* [stream, eps4, dim, ev]: "state" [k points fed, data (points handed on), s, count,
   vertices (complex), dist (squared)].                                                *)
EXTENDS NaiveWindow, Json, TLC, FiniteSets
Simp == INSTANCE Simplicial
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok, st
vars == <<c, l, ok, st>>
T == Traces[c]
E == T.ev[l]
ToSet1(q) == { q[i] : i \in 1..Len(q) }
Sq(x, y) == LET RECURSIVE F(_) F(d) == IF d = 0 THEN 0 ELSE (x[d] - y[d]) * (x[d] - y[d]) + F(d-1) IN F(Len(x))
RECURSIVE FeedTo(_, _)
FeedTo(r, k) == IF r.n = k THEN r ELSE FeedTo(Take(r, T.stream[r.n + 1]), k)
ComplexOk(r) ==
    LET n == Len(r.first)
        D == [u \in 1..n |-> [v \in 1..n |-> 4 * Sq(r.first[u], r.first[v])]]
        K == Simp!BuildRips(n, D, T.eps4, FALSE, T.dim)
    IN  /\ E.count = Cardinality(K) /\ E.vertices = n /\ Len(E.s) = Cardinality(K)
        /\ { <<ToSet1(E.s[i][1]), E.s[i][2]>> : i \in 1..Len(E.s) } = { <<s, Simp!Diam(D, s)>> : s \in K }
        /\ Len(E.dist) = n /\ \A i, j \in 1..n : i < j => 4 * E.dist[i][j] = D[i][j]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ st = Start
TraceNext == /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
             /\ st' = IF E.e = "state" THEN FeedTo(st, E.k) ELSE st
             /\ ok' = (E.e = "state" /\ E.data = st'.out /\ ComplexOk(st'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

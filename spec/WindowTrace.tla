------------------------------ MODULE WindowTrace --------------------------------
(* [stream, eps4, dim, ev]: "state" [k points fed; keys, labels, nni (from 1, 0 for none),
   nnd (thousandths, -1 for none), avg, num, max (pairs), dist (squared, -1 where it is not
   a square root of an integer), data (points handed on), s, count, vertices (complex)].
   S: the states it may be in, at: points fed.  A state also holds the points handed on and
   those of the first full window.                                                     *)
EXTENDS Window, Json
CONSTANT Report
Simp == INSTANCE Simplicial
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok, S, at
vars == <<c, l, ok, S, at>>
T == Traces[c]
E == T.ev[l]
ToSet1(q) == { q[i] : i \in 1..Len(q) }
Positions(w) == [i \in 1..Len(w) |-> w[i].x]
Handing(r, i) == LET x == Positions(r.w)
                     f == IF Len(r.first) = 0 /\ Len(x) = W THEN x ELSE r.first
                 IN  [w |-> r.w, key |-> r.key, dirty |-> r.dirty, first |-> f,
                      out |-> IF (i % Report = 0 /\ i > W) \/ (Len(r.first) = 0 /\ Len(x) = W) THEN x ELSE r.out]
RECURSIVE FeedTo(_, _, _)
FeedTo(A, i, k) == IF i = k THEN A
    ELSE FeedTo(UNION { { Handing([w |-> r.w, key |-> r.key, dirty |-> r.dirty, first |-> st.first, out |-> st.out], i+1) :
                          r \in Consume([w |-> st.w, key |-> st.key, dirty |-> st.dirty], T.stream[i+1]) } : st \in A }, i+1, k)
\* ---- what is seen of a state
Full(st) == Len(st.w) = W
NearestOk(st) == LET w == st.w IN
    /\ Len(E.nni) = W /\ Len(E.nnd) = W
    /\ \A i \in 1..W : LET q == NNSq(w, i) IN
         IF q = -1 THEN E.nni[i] = 0 /\ E.nnd[i] = -1
         ELSE /\ E.nni[i] \in In(w, w[i].p) \ {i} /\ Sq(w[i].x, w[E.nni[i]].x) = q
              /\ E.nnd[i] - Milli(q) \in {-1, 0, 1}
PartsOk(st) == LET w == st.w IN
    /\ { x[1] : x \in ToSet1(E.avg) } = Parts(w) /\ Len(E.avg) = Cardinality(Parts(w))
    /\ \A i \in 1..Len(E.avg) : LET p == E.avg[i][1] n == Count(w, p) IN
         IF n = 1 THEN E.avg[i][2] = -1 ELSE E.avg[i][2] * n - Sum(w, p) \in (-2 * n)..(2 * n)
    /\ { x \in ToSet1(E.num) : x[2] # 0 } = { <<p, Count(w, p)>> : p \in Parts(w) }    \* an entry of 0 says the same as none
    /\ ToSet1(E.max) = { <<p, LastKey(w, p)>> : p \in Parts(w) } /\ Len(E.max) = Cardinality(Parts(w))
DistOk(st) == Len(E.dist) = W /\ \A i \in 1..W : Len(E.dist[i]) = W /\ \A j \in 1..W : i < j => E.dist[i][j] = Sq(st.w[i].x, st.w[j].x)
ComplexOk(st) ==
    LET n == Len(st.first)
        D == [u \in 1..n |-> [v \in 1..n |-> 4 * Sq(st.first[u], st.first[v])]]
        K == Simp!BuildRips(n, D, T.eps4, FALSE, T.dim)
    IN  /\ E.count = Cardinality(K) /\ E.vertices = n /\ Len(E.s) = Cardinality(K)
        /\ { <<ToSet1(E.s[i][1]), E.s[i][2]>> : i \in 1..Len(E.s) } = { <<s, Simp!Diam(D, s)>> : s \in K }
Shows(st) ==
    /\ E.keys = [i \in 1..Len(st.w) |-> st.w[i].k] /\ E.labels = [i \in 1..Len(st.w) |-> st.w[i].p]
    /\ E.data = st.out
    /\ IF Full(st) THEN NearestOk(st) /\ PartsOk(st) /\ DistOk(st)
       ELSE E.nni = << >> /\ E.nnd = << >> /\ E.avg = << >> /\ E.num = << >> /\ E.max = << >>
    /\ ComplexOk(st)
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ S = {[w |-> << >>, key |-> 0, dirty |-> {}, first |-> << >>, out |-> << >>]} /\ at = 0
TraceNext == /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
             /\ S' = (IF E.e = "state" THEN { st \in FeedTo(S, at, E.k) : Shows(st) } ELSE {})
             /\ at' = (IF E.e = "state" THEN E.k ELSE at)
             /\ ok' = (S' # {})
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

------------------------------ MODULE Simplicial ------------------------------
(* Vietoris-Rips complexes over an integer weight matrix.

   A weight matrix is a sequence of rows D (1-based), of which only the upper
   triangle is read: the weight of the edge {u,v} of the 0-based vertices u < v is
   D[u+1][v+1].  Weights are integers: either the integers of an injected distance
   matrix, or 4 * (squared Euclidean distance) of a point cloud, which orders edges
   exactly as the distances do.  A simplex is a set of vertices.

   `lim' is the limit on the weights and `closed' tells whether an edge exactly at
   the limit belongs to the complex (it does in the list storage and it does not in
   the two trees; the implementation differs here by design).                      *)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt, SequencesExt, TLC

EdgeW(D, u, v) == IF u < v THEN D[u+1][v+1] ELSE D[v+1][u+1]

Within(w, lim, closed) == IF closed THEN w =< lim ELSE w < lim

SetMax(S, default) == FoldSet(LAMBDA x, y : IF x > y THEN x ELSE y, default, S)

\* Diameter of a simplex: the largest weight of its edges, 0 for a vertex.
Diam(D, s) == SetMax({ EdgeW(D, p[1], p[2]) : p \in {q \in s \X s : q[1] < q[2]} }, 0)

\* ------------------------------------------------------- definition (declarative)
\* All cliques of at most K+1 vertices whose edges are all within the limit.
Rips(n, D, lim, closed, K) ==
    { s \in UNION { kSubset(k, 0..(n-1)) : k \in 1..(IF K+1 < n THEN K+1 ELSE n) } :
        \A u, v \in s : u < v => Within(EdgeW(D, u, v), lim, closed) }

\* -------------------------------------------------- construction (as implemented)
\* One incremental insertion: the new vertex is joined to every stored simplex all of
\* whose vertices are close enough to it.
NewSimplices(K, D, v, lim, closed, maxDim) ==
    LET nb == { u \in UNION K : Within(EdgeW(D, u, v), lim, closed) }
    IN  {{v}} \cup { s \cup {v} : s \in { t \in K : t \subseteq nb /\ Cardinality(t) =< maxDim } }

RECURSIVE InsertAll(_, _, _, _, _, _)
InsertAll(K, v, n, D, cfg, maxDim) ==
    IF v = n THEN K
    ELSE InsertAll(K \cup NewSimplices(K, D, v, cfg.lim, cfg.closed, maxDim), v+1, n, D, cfg, maxDim)

BuildRips(n, D, lim, closed, maxDim) ==
    InsertAll({}, 0, n, D, [lim |-> lim, closed |-> closed], maxDim)

\* ------------------------------------------------------------------ total order
\* (unique within a dimension; vertices and edges of large complexes stay in range)
Code(s) == CASE Cardinality(s) = 1 -> Max(s)
             [] Cardinality(s) = 2 -> 4096 * Min(s) + Max(s)
             [] Cardinality(s) > 2 /\ Max(s) < 30 -> FoldSet(LAMBDA v, a : a + 2^v, 0, s)
             [] OTHER -> -1 - FoldLeft(LAMBDA a, v : 64 * a + v, 0, SetToSortSeq(s, LAMBDA x, y : x < y))
                         \* at most five vertices below 64

\* Simplices of one dimension in filtration order (ties resolved arbitrarily but totally)
Sorted(S, D) ==
    LET X == { <<Diam(D, s), Code(s), s>> : s \in S }
    IN  SetToSortSeq(X, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))

OfSize(K, k) == { s \in K : Cardinality(s) = k }

Facets(s) == { s \ {v} : v \in s }
===============================================================================

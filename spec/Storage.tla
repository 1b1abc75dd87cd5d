-------------------------------- MODULE Storage --------------------------------
(* Life cycle of one simplicial complex object: the operations of its public interface
   and what every query answers.  Three kinds of storage:
     "simplexTree", "indSimplexTree"   complete up to the configured dimension after
                                       every insertion, an edge is in if strictly
                                       within the limit;
     "simplexArrayList"                vertices and edges only until it is expanded, an
                                       edge exactly at the limit is in.               *)
EXTENDS Simplicial

TreeKinds == {"simplexTree", "indSimplexTree"}
Kinds == TreeKinds \cup {"simplexArrayList"}

\* --- the effect of an operation on the stored set of simplices
InsertInto(kind, K, D, m, lim, dim) ==
    IF kind \in TreeKinds THEN K \cup NewSimplices(K, D, m, lim, FALSE, dim)
    ELSE K \cup NewSimplices({ s \in K : Cardinality(s) = 1 }, D, m, lim, TRUE, IF dim > 0 THEN 1 ELSE 0)

\* expansion to simplices of at most d+1 vertices: every clique of the stored edges
ExpandTo(kind, K, m, d) ==
    IF kind \in TreeKinds THEN K
    ELSE K \cup { s \in UNION { kSubset(k, 0..(m-1)) : k \in 3..(IF d + 1 < m THEN d + 1 ELSE m) } :
                    \A e \in kSubset(2, s) : e \in K }

\* --- what the queries answer
ListAnswer(K, D) == { <<s, Diam(D, s)>> : s \in K }
SizeAnswer(K, D, k, flt) == { s \in K : Cardinality(s) = k /\ (flt < 0 \/ Diam(D, s) =< flt) }
===============================================================================

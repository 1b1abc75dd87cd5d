----------------------------- MODULE Persistence ------------------------------
(* Persistent homology over GF(2), twice: by column reduction (what the
   implementation does) and by the ranks of the persistent homology groups (the
   definition).  LHF.tla checks that the two agree.                              *)
EXTENDS Simplicial, Bags

SMax(S) == CHOOSE x \in S : \A y \in S : y =< x

\* ---------------------------------------------------------------- column reduction
\* R maps a pivot row to the reduced column that owns it.
RECURSIVE ReduceCol(_, _)
ReduceCol(col, R) ==
    IF col = {} THEN {}
    ELSE LET p == Max(col) IN
         IF p \in DOMAIN R THEN ReduceCol(TLCEval(SymDiff(col, R[p])), R) ELSE col

\* State of the reduction of one dimension: R and the set of <<row, column>> pairs.
ReduceStep(st, cols, j) ==
    LET c == ReduceCol(cols[j], st.R) IN
    IF c = {} THEN st
    ELSE [R |-> st.R @@ (Max(c) :> c), pairs |-> st.pairs \cup {<<Max(c), j>>}]

RECURSIVE ReduceFrom(_, _, _)
ReduceFrom(st, cols, j) ==
    IF j > Len(cols) THEN st ELSE ReduceFrom(ReduceStep(st, cols, j), cols, j+1)

ReduceAll(cols) == ReduceFrom([R |-> [x \in {} |-> {}], pairs |-> {}], cols, 1)

\* Boundary columns of `hi' (sorted entries <<weight, code, simplex>>) over `lo',
\* without the rows in `cleared' (rows known to be negative: "clearing").
Columns(lo, hi, cleared) ==
    LET idx == [i \in 1..Len(lo) |-> lo[i][3]]
    IN  TLCEval([j \in 1..Len(hi) |->
            { i \in 1..Len(lo) : i \notin cleared /\ idx[i] \subseteq hi[j][3] }])

\* Multisets as functions from values to positive counts.
MAdd(B, x) == TLCEval(IF x \in DOMAIN B THEN [B EXCEPT ![x] = @ + 1] ELSE B @@ (x :> 1))
MAddN(B, x, k) == IF k = 0 THEN B ELSE IF x \in DOMAIN B THEN [B EXCEPT ![x] = @ + k] ELSE B @@ (x :> k)
Empty == [x \in {} |-> 0]
MOfSeq(s) == FoldSeq(LAMBDA x, B : MAdd(B, x), Empty, s)

\* Bars of dimension d >= 1 from the pairs of the d+1 -> d reduction; bars of length 0 are
\* not bars.  A bar is <<dimension, birth, death>>.
BarsOfPairs(d, lo, hi, pairs) ==
    FoldSet(LAMBDA p, B : IF lo[p[1]][1] = hi[p[2]][1] THEN B
                          ELSE MAdd(B, <<d, lo[p[1]][1], hi[p[2]][1]>>), Empty, pairs)

MSum(A, B) == TLCEval([ x \in DOMAIN A \cup DOMAIN B |->
                 (IF x \in DOMAIN A THEN A[x] ELSE 0) + (IF x \in DOMAIN B THEN B[x] ELSE 0) ])

\* ------------------------------------------------------ dimension 0 by Kruskal's rule
\* comp: a partition of the vertices; every merging edge contributes <<0, 0, w>>.
KruskalStep(st, e) ==      \* e = <<weight, code, edge>>
    LET hit == { c \in st.comp : c \cap e[3] # {} } IN
    IF Cardinality(hit) < 2 THEN st
    ELSE [comp |-> (st.comp \ hit) \cup {UNION hit},
          mst  |-> Append(st.mst, e[1]), neg |-> st.neg \cup {e[2]}]

Kruskal(n, edges) ==
    FoldLeft(KruskalStep, [comp |-> { {v} : v \in 0..(n-1) }, mst |-> <<>>, neg |-> {}], edges)

H0Bars(n, edges, lim) ==
    LET k == Kruskal(n, edges)
        B == FoldSeq(LAMBDA w, A : MAdd(A, <<0, 0, w>>), Empty, k.mst)
    IN  MAddN(B, <<0, 0, lim>>, Cardinality(k.comp))

\* ---------------------------------------------------------------- complete barcode
\* Dimensions 0 .. dims-1 of the complex K: every component (the ones alive at the limit
\* end there), and every class of dimension >= 1 that dies within the limit.
RECURSIVE HigherBars(_, _, _, _, _)
HigherBars(sorted, d, dims, neg, acc) ==
    IF d >= dims \/ d + 2 > Len(sorted) THEN acc
    ELSE LET lo == sorted[d+1]
             hi == sorted[d+2]
             st == ReduceAll(Columns(lo, hi, neg))
         IN  HigherBars(sorted, d+1, dims, { p[2] : p \in st.pairs },
                        MSum(acc, BarsOfPairs(d, lo, hi, st.pairs)))

SortedByDim(K, D, top) == [k \in 1..top |-> Sorted(OfSize(K, k), D)]

Barcode(n, K, D, lim, dims) ==
    LET S == SortedByDim(K, D, dims + 1)
        k == Kruskal(n, IF dims + 1 >= 2 THEN S[2] ELSE Sorted(OfSize(K, 2), D))
        neg == { i \in 1..Len(S[2]) : S[2][i][2] \in k.neg }
    IN  MSum(H0Bars(n, S[2], lim), HigherBars(S, 1, dims, neg, Empty))

\* Classes of dimension 1 .. dims-1 that are still alive at the limit, with the limit as end.
RECURSIVE EssentialBars(_, _, _, _, _, _)
EssentialBars(S, d, dims, neg, lim, acc) ==
    IF d >= dims \/ d + 1 > Len(S) THEN acc
    ELSE LET lo == S[d+1]
             hi == IF d + 2 > Len(S) THEN <<>> ELSE S[d+2]
             st == ReduceAll(Columns(lo, hi, neg))
             paired == { p[1] : p \in st.pairs }
         IN  EssentialBars(S, d+1, dims, { p[2] : p \in st.pairs }, lim,
                FoldSet(LAMBDA i, A : IF i \in neg \/ i \in paired THEN A ELSE MAdd(A, <<d, lo[i][1], lim>>),
                        acc, 1..Len(lo)))

\* What the alternative persistence stage reports: intervals of classes that die, if longer
\* than 0 (in dimension 0 as well), and all classes that do not.
NonZero(B) == [x \in { y \in DOMAIN B : y[2] # y[3] } |-> B[x]]
FullBarcode(n, K, D, lim, dims) ==
    LET S == SortedByDim(K, D, dims + 1)
        k == Kruskal(n, S[2])
        neg == { i \in 1..Len(S[2]) : S[2][i][2] \in k.neg }
    IN  MSum(NonZero(Barcode(n, K, D, lim, dims)), EssentialBars(S, 1, dims, neg, lim, Empty))

\* ------------------------------------------------------------- definition by ranks
\* Rank of a set-indexed family of columns (a sequence of sets) over GF(2).
Rank(cols) == Cardinality(ReduceAll(cols).pairs)

\* rank of the boundary of the d-simplices of weight =< b, projected to the (d-1)-simplices
\* of weight > a (a = -1: no projection)
BoundaryRank(K, D, d, a, b) ==
    LET hi == Sorted({ s \in OfSize(K, d+1) : Diam(D, s) =< b }, D)
        lo == Sorted({ s \in OfSize(K, d)   : Diam(D, s) =< b /\ Diam(D, s) > a }, D)
    IN  IF d = 0 THEN 0 ELSE Rank(Columns(lo, hi, {}))

\* dim of the image of H_d(K_a) -> H_d(K_b), a =< b:
\*   dim Z_d(K_a) - dim (Z_d(K_a) \cap B_d(K_b))
PersistentBetti(K, D, d, a, b) ==
    LET za == Cardinality({ s \in OfSize(K, d+1) : Diam(D, s) =< a }) - BoundaryRank(K, D, d, -1, a)
        bb == BoundaryRank(K, D, d+1, -1, b) - BoundaryRank(K, D, d+1, a, b)
    IN  za - bb

\* Number of bars of dimension d with birth =< a and death > b
Alive(B, d, a, b) ==
    FoldSet(LAMBDA x, s : IF x[1] = d /\ x[2] =< a /\ x[3] > b THEN s + B[x] ELSE s, 0, DOMAIN B)
===============================================================================

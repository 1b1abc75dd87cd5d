--------------------------------- MODULE KMeans ---------------------------------
(* Clustering by alternating assignment and averaging, in exact arithmetic.  A centroid
   is [s |-> coordinate sums, n |-> number of points], that is the point s/n; points
   have integer coordinates.                                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Square(x) == x * x
RECURSIVE SqD(_, _, _)
\* squared distance of point x to centroid c, times n squared
SqD(x, c, d) == IF d = 0 THEN 0 ELSE Square(c.n * x[d] - c.s[d]) + SqD(x, c, d-1)
Num(x, c) == SqD(x, c, Len(x))
\* on a line the sides of the midpoint decide, with smaller numbers
NoFarther(x, a, b) ==
    IF Len(x) = 1 THEN LET g == b.s[1] * a.n - a.s[1] * b.n
                           m == 2 * x[1] * a.n * b.n - a.s[1] * b.n - b.s[1] * a.n
                       IN  \/ g = 0 \/ m = 0 \/ (g > 0) = (m < 0)
    ELSE Num(x, a) * Square(b.n) =< Num(x, b) * Square(a.n)
NearestTo(x, C) == { j \in 1..Len(C) : \A k \in 1..Len(C) : NoFarther(x, C[j], C[k]) }

RECURSIVE SumOver(_, _, _)
SumOver(X, I, d) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN X[i][d] + SumOver(X, I \ {i}, d)
Members(L, j) == { i \in 1..Len(L) : L[i] = j }
MeanOf(X, I) == [s |-> [d \in 1..Len(X[1]) |-> SumOver(X, I, d)], n |-> Cardinality(I)]
AtPoint(x) == [s |-> x, n |-> 1]
SamePlace(a, b) == \A d \in 1..Len(a.s) : a.s[d] * b.n = b.s[d] * a.n

\* one round: any assignment to nearest centroids, then the means; an empty one stays
Assignments(X, C) == { L \in [1..Len(X) -> 1..Len(C)] : \A i \in 1..Len(X) : L[i] \in NearestTo(X[i], C) }
Update(X, C, L) == [j \in 1..Len(C) |-> IF Members(L, j) = {} THEN C[j] ELSE MeanOf(X, Members(L, j))]

Distinct(X) == { X[i] : i \in 1..Len(X) }
Size(X, k) == IF k < Cardinality(Distinct(X)) THEN k ELSE Cardinality(Distinct(X))
Seedings(X, k) == { f \in [1..Size(X, k) -> Distinct(X)] : \A a, b \in 1..Size(X, k) : a # b => f[a] # f[b] }

\* what a result may look like, whatever the seeds
MeansExact(X, C, L) == \A j \in 1..Len(C) : Members(L, j) # {} => SamePlace(C[j], MeanOf(X, Members(L, j)))
Settled(X, C, L) == \A i \in 1..Len(X) : L[i] \in NearestTo(X[i], C)

\* the assignment that prefers the lowest index among equally near centroids
Lowest(X, C) == [i \in 1..Len(X) |-> Min(NearestTo(X[i], C))]

\* every result of at most z rounds from any seeds, ties broken in any way (small inputs):
\* all unfinished states of one round at a time, the finished ones collected
RECURSIVE Rounds(_, _, _, _)
Rounds(X, open, done, z) ==
    IF z = 0 \/ open = {} THEN [open |-> open, done |-> done]
    ELSE LET step == UNION { { [C |-> Update(X, st.C, L), L |-> L, fin |-> L = st.L] : L \in Assignments(X, st.C) } : st \in open }
         IN  Rounds(X, { [C |-> u.C, L |-> u.L] : u \in { v \in step : ~v.fin } },
                    done \cup { [C |-> u.C, L |-> u.L] : u \in { v \in step : v.fin } }, z-1)
Started(X, k) == { [C |-> [j \in 1..Size(X, k) |-> AtPoint(f[j])], L |-> << >>] : f \in Seedings(X, k) }
Outcomes(X, k, z) == LET r == Rounds(X, Started(X, k), {}, IF z > 12 THEN 12 ELSE z)
                     IN  r.done \cup (IF z > 12 THEN {} ELSE r.open)
================================================================================

------------------------------- MODULE Partition -------------------------------
(* Splitting data between clusters and back.  Points are sequences of doubled integer
   coordinates, so Sq is four times the squared distance; a radius is given as four times
   its value and compared through squares.                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Square(x) == x * x
RECURSIVE SqUpTo(_, _, _)
SqUpTo(p, q, n) == IF n = 0 THEN 0 ELSE Square(p[n] - q[n]) + SqUpTo(p, q, n-1)
Sq(p, q) == SqUpTo(p, q, Len(p))
Max2(a, b) == IF a > b THEN a ELSE b

\* positions (from 0) of the points of one part, in input order
Pick(n, P(_)) == SelectSeq([i \in 1..n |-> i - 1], P)
ByLabel(X, L, k) == [j \in 1..k |-> Pick(Len(X), LAMBDA i : L[i+1] = j - 1)]
ByRadius(X, C, r) == [j \in 1..Len(C) |-> Pick(Len(X), LAMBDA i : 4 * Sq(X[i+1], C[j]) < r * r)]
ByBoundary(X, L, B) == [j \in 1..Len(B) |-> Pick(Len(X), LAMBDA i : L[i+1] \in B[j])]
At(X, I) == [i \in 1..Len(I) |-> X[I[i] + 1]]
Points(X, parts) == [j \in 1..Len(parts) |-> At(X, parts[j])]
CoverSq(X, C, L) == IF Len(X) = 0 THEN 0 ELSE Max({ Sq(X[i], C[L[i] + 1]) : i \in 1..Len(X) })
MapBack(table, pts) == { table[p + 1] : p \in pts }
===============================================================================

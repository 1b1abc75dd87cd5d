---------------------------------- MODULE Dist ----------------------------------
(* The distance stage: all pairs above the diagonal in row order, and the set of
   filtration values.  Points are integer vectors (twice the half-integer coordinates of
   the code), values are squared distances of these, i.e. 4 * d^2.                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json

SqDist(p, q) == FoldLeft(LAMBDA a, i : a + (p[i] - q[i]) * (p[i] - q[i]), 0, [i \in 1..Len(p) |-> i])

\* declarative
DistMatrix(P) == [i \in 1..Len(P) |-> [j \in 1..Len(P) |-> IF i < j THEN SqDist(P[i], P[j]) ELSE 0]]
Values(P, lim) == {0, lim} \cup { SqDist(P[q[1]], P[q[2]]) : q \in { r \in (1..Len(P)) \X (1..Len(P)) :
                                         r[1] < r[2] /\ SqDist(P[r[1]], P[r[2]]) < lim } }

\* stepwise
VARIABLES P, lim, i, j, M, W
vars == <<P, lim, i, j, M, W>>
Start(p, L) == P = p /\ lim = L /\ i = 1 /\ j = 2 /\ W = {}
               /\ M = [a \in 1..Len(p) |-> [b \in 1..Len(p) |-> 0]]
Pair == /\ i < Len(P) /\ j =< Len(P)
        /\ LET d == SqDist(P[i], P[j]) IN
             M' = [M EXCEPT ![i][j] = d] /\ W' = IF d < lim THEN W \cup {d} ELSE W
        /\ IF j = Len(P) THEN i' = i + 1 /\ j' = i + 2 ELSE i' = i /\ j' = j + 1
        /\ UNCHANGED <<P, lim>>
Finish == i >= Len(P) /\ i # 0 /\ i' = 0 /\ W' = W \cup {0, lim} /\ UNCHANGED <<P, lim, j, M>>
DistNext == Pair \/ Finish
Done == i = 0
Result == Done => M = DistMatrix(P) /\ W = Values(P, lim)
Partial == \A a, b \in 1..Len(P) : M[a][b] \in {0, DistMatrix(P)[a][b]}
===============================================================================

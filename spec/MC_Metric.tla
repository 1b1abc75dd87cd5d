------------------------------- MODULE MC_Metric -------------------------------
(* The specified barcode is a property of the metric: renaming the points, scaling the
   weights with the limit, and raising the dimension commute with it.  One state per
   weight matrix.                                                                   *)
EXTENDS Persistence
CONSTANTS N, MaxW, Lims, Dims
VARIABLES D, lim
Pairs == { p \in (0..(N-1)) \X (0..(N-1)) : p[1] < p[2] }
MatrixOf(f) == [i \in 1..N |-> [j \in 1..N |-> IF i < j THEN f[<<i-1, j-1>>] ELSE 0]]
Perms == { f \in [0..(N-1) -> 0..(N-1)] : \A a, b \in 0..(N-1) : a # b => f[a] # f[b] }
Renamed(A, f) == [i \in 1..N |-> [j \in 1..N |-> IF i < j THEN EdgeW(A, f[i-1], f[j-1]) ELSE 0]]
Scaled(A, k) == [i \in 1..N |-> [j \in 1..N |-> k * A[i][j]]]
BC(A, L, k) == Barcode(N, BuildRips(N, A, L, FALSE, k), A, L, k)
ScaleBars(B, k) == [x \in { <<y[1], k*y[2], k*y[3]>> : y \in DOMAIN B } |-> B[<<x[1], x[2] \div k, x[3] \div k>>]]
Lower(B, k) == [x \in { y \in DOMAIN B : y[1] < k } |-> B[x]]
Init == lim \in Lims /\ D \in { MatrixOf(f) : f \in [Pairs -> 1..MaxW] }
Spec == Init /\ [][UNCHANGED <<D, lim>>]_<<D, lim>>
RenamingInvariant == \A k \in Dims : \A f \in Perms : BC(Renamed(D, f), lim, k) = BC(D, lim, k)
ScaleInvariant == \A k \in Dims : BC(Scaled(D, 3), 3 * lim, k) = ScaleBars(BC(D, lim, k), 3)
DimensionMonotone == \A j, k \in Dims : j < k => Lower(BC(D, lim, k), j) = BC(D, lim, j)
===============================================================================

--------------------------------- MODULE KdTree ---------------------------------
(* Range and nearest queries.  The tree over a sequence of points is kept as an array:
   the node of the positions lo..hi is the middle one, left and right of it are its
   subtrees, and the coordinate compared alternates with the depth.                   *)
EXTENDS Partition

Mid(lo, hi) == lo + (hi - lo + 1) \div 2
\* every order that sorting (with ties in any order) can leave behind
RECURSIVE IsTree(_, _, _, _)
IsTree(a, lo, hi, lev) ==
    IF lo >= hi THEN TRUE
    ELSE LET m == Mid(lo, hi) nxt == (lev % Len(a[lo])) + 1
         IN  /\ \A k \in lo..(m-1) : a[k][lev] =< a[m][lev]
             /\ \A k \in (m+1)..hi : a[m][lev] =< a[k][lev]
             /\ IsTree(a, lo, m-1, nxt) /\ IsTree(a, m+1, hi, nxt)

Within(X, q, r) == { i \in 1..Len(X) : 4 * Sq(X[i], q) =< r * r }
LeastSq(X, q) == Min({ Sq(X[i], q) : i \in 1..Len(X) })
================================================================================

---------------------------------- MODULE Micro ----------------------------------
(* Micro-clusters.  A point inserted at tick k counts B^k, so that no number ever has to
   decay: at tick t the weight is w / B^t, the centre ls / w and the squared radius
   (ss * w - |ls|^2) / w^2.                                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k-1)
Zero(n) == [d \in 1..n |-> 0]
RECURSIVE Dot(_, _, _)
Dot(x, y, d) == IF d = 0 THEN 0 ELSE x[d] * y[d] + Dot(x, y, d-1)
Norm2(x) == Dot(x, x, Len(x))
Empty(n, born) == [w |-> 0, ls |-> Zero(n), ss |-> 0, born |-> born]
\* m copies of point x inserted at once, each counting u
AddN(c, x, u, m) == [c EXCEPT !.w = @ + m*u, !.ls = [d \in 1..Len(x) |-> @[d] + m*u*x[d]], !.ss = @ + m*u*Norm2(x)]
Add(c, x, u) == AddN(c, x, u, 1)
R2num(c) == c.ss * c.w - Norm2(c.ls)
R2den(c) == c.w * c.w
Fix(num, den, scale) == (num \div den) * scale + ((num % den) * scale) \div den
Abs(x) == IF x < 0 THEN -x ELSE x
================================================================================

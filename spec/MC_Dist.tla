--------------------------------- MODULE MC_Dist ---------------------------------
EXTENDS Dist
CONSTANTS N, Span, Lims
Clouds == UNION { [1..k -> { <<a, b>> : a \in 0..Span, b \in 0..1 }] : k \in 0..N }
Init == \E p \in Clouds, L \in Lims : Start(p, L)
Spec == Init /\ [][DistNext]_vars /\ WF_vars(DistNext)
Terminates == <>Done
\* metric laws of the declared result, on the squares: (a+b)^2 >= c^2  <=>  c2-a2-b2 =< 2ab
Triangle ==
    \A a, b, c \in 1..Len(P) :
      LET x == SqDist(P[a], P[b]) y == SqDist(P[b], P[c]) z == SqDist(P[a], P[c]) r == z - x - y
      IN  r > 0 => r * r =< 4 * x * y
Emit == IF ~Done THEN TRUE ELSE PrintT("@@" \o ToJson([P |-> P, lim |-> lim]))
===============================================================================

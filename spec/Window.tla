---------------------------------- MODULE Window ---------------------------------
(* The sliding window: at most W points of a stream, each with its key (its number among
   the admitted points) and partition.  All statistics are functions of the window, hence
   exact by construction; the code keeps them incrementally.  Distances in thousandths.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANTS W, Old                  \* size; insertions after which a partition is outdated

Sq(x, y) == LET RECURSIVE F(_) F(d) == IF d = 0 THEN 0 ELSE (x[d] - y[d]) * (x[d] - y[d]) + F(d-1) IN F(Len(x))
RECURSIVE Root(_, _, _)
\* largest r in lo..hi with r*r <= n
Root(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m =< n THEN Root(n, m, hi) ELSE Root(n, lo, m-1)
Milli(q) == Root(q * 1000000, 0, 46340)
WholeSq(q) == LET r == Root(q, 0, 1000) IN r * r = q

\* a point: [k |-> key, x |-> position, p |-> partition]
Parts(w) == { w[i].p : i \in 1..Len(w) }
In(w, p) == { i \in 1..Len(w) : w[i].p = p }
\* squared distance to the nearest other point of the same partition, -1 if alone
NNSq(w, i) == LET o == In(w, w[i].p) \ {i} IN IF o = {} THEN -1 ELSE Min({ Sq(w[i].x, w[j].x) : j \in o })
RECURSIVE SumMilli(_, _)
SumMilli(w, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN Milli(NNSq(w, i)) + SumMilli(w, I \ {i})
\* sum of the nearest neighbour distances of partition p (of at least two points)
Sum(w, p) == SumMilli(w, In(w, p))
Count(w, p) == Cardinality(In(w, p))
LastKey(w, p) == Max({ w[i].k : i \in In(w, p) })
RECURSIVE Odd(_)
Odd(n) == IF n % 2 = 0 THEN Odd(n \div 2) ELSE n
\* the mean can be kept without rounding
Whole(w, p) == \A i \in In(w, p) : WholeSq(NNSq(w, i))
Clean(w, p) == Count(w, p) = 1 \/ (Whole(w, p) /\ (Sum(w, p) \div 1000) % Odd(Count(w, p)) = 0)

\* a distance against a multiple of the mean: "lt", "eq", "gt" or "both" when rounding may decide
\* (exact: the mean was kept without rounding so far)
Against(d, a, n, b, exact, slack) ==        \* d * n against a * b, in thousandths
    LET l == d * n r == a * b
    IN  IF exact THEN (IF l < r THEN "lt" ELSE IF l = r THEN "eq" ELSE "gt")
        ELSE IF l + slack < r THEN "lt" ELSE IF l > r + slack THEN "gt" ELSE "both"
\* mean of p at most 1/4
Tight(w, p, exact) == Against(250, Sum(w, p), Count(w, p), 1, exact, Count(w, p) + 1)
\* squared distance q against four times the mean of p
Far4(w, p, q, exact) == Against(Milli(q), Sum(w, p), Count(w, p), 4, exact /\ WholeSq(q), 5 * Count(w, p) + 5)
Yes(c, S) == c \in S \/ c = "both"
No(c, S) == c \notin S

\* ---- what may happen to a new point x: set of [in, p (partition), out (position evicted)].
\* dirty: partitions whose mean may have been rounded
Pure(w) == Cardinality(Parts(w)) = 1
Rejected == [in |-> FALSE, p |-> 0, out |-> 0]
NearestAt(w, x) == LET q == [i \in 1..Len(w) |-> Sq(w[i].x, x)] m == Min({ q[i] : i \in 1..Len(w) })
                   IN  [q |-> m, p |-> { w[i].p : i \in { j \in 1..Len(w) : q[j] = m } }]
PureOptions(w, x, dirty) ==
    LET p == w[1].p q == NearestAt(w, x).q e == p \notin dirty
        tight == Tight(w, p, e) far == Far4(w, p, q, e)
        admit == [in |-> TRUE, p |-> p + 1, out |-> 1]
    IN  IF q = 0 THEN {Rejected}
        ELSE (IF Yes(tight, {"gt", "eq"}) /\ q =< 1 THEN {Rejected} ELSE {})
             \cup (IF q > 1 \/ No(tight, {"gt", "eq"})
                   THEN (IF Yes(far, {"gt"}) THEN {admit} ELSE {}) \cup (IF No(far, {"gt"}) THEN {Rejected} ELSE {}) ELSE {})
Fresh(w) == Max(Parts(w)) + 1
\* partitions that x may be given when its nearest point is at squared distance q in np
Targets(w, x, np, q, dirty) ==
    LET e == np \notin dirty tight == Tight(w, np, e) far == Far4(w, np, q, e)
    IN  IF q = 0 THEN {np}
        ELSE IF q > 25 THEN {Fresh(w)}
        ELSE IF Count(w, np) = 1 THEN {np}
        ELSE (IF q =< 1 /\ Yes(tight, {"gt", "eq"}) THEN {np} ELSE {})
             \cup (IF q > 1 \/ No(tight, {"gt", "eq"})
                   THEN (IF Sum(w, np) > 0 /\ Yes(far, {"lt", "eq"}) THEN {np} ELSE {})
                        \cup (IF Sum(w, np) = 0 \/ No(far, {"lt", "eq"}) THEN {Fresh(w)} ELSE {}) ELSE {})
Outdated(w, key) == { p \in Parts(w) : key - LastKey(w, p) > Old }
Smallest(w, ps) == { p \in ps : \A r \in ps : Count(w, p) =< Count(w, r) }
\* positions that may be evicted for a point that goes to partition t, its nearest being np
Evicted(w, key, t, np) ==
    LET od == Outdated(w, key)
    IN  IF od # {} THEN { Min(In(w, p)) : p \in Smallest(w, od) }
        ELSE IF t # np THEN {1} ELSE { Min({ i \in 1..Len(w) : w[i].p # t }) }
MixedOptions(w, key, x, dirty) ==
    LET n == NearestAt(w, x)
    IN  UNION { UNION { { [in |-> TRUE, p |-> t, out |-> i] : i \in Evicted(w, key, t, np) } : t \in Targets(w, x, np, n.q, dirty) } : np \in n.p }
Options(w, key, x, dirty) == IF Pure(w) THEN PureOptions(w, x, dirty) ELSE MixedOptions(w, key, x, dirty)

\* ---- states: [w, key, dirty]
Begin == [w |-> << >>, key |-> 0, dirty |-> {}]
Dirt(w, old) == { p \in Parts(w) : Count(w, p) > 1 /\ (p \in old \/ ~Clean(w, p)) }
Admit(st, x, p) == LET w == Append(st.w, [k |-> st.key, x |-> x, p |-> p])
                   IN  [w |-> w, key |-> st.key + 1, dirty |-> IF Len(w) < W THEN {} ELSE Dirt(w, st.dirty)]
Apply(st, x, ch) == IF ch.in THEN Admit([st EXCEPT !.w = RemoveAt(@, ch.out)], x, ch.p) ELSE st
Consume(st, x) == IF Len(st.w) < W THEN { Admit(st, x, 0) }
                  ELSE { Apply(st, x, ch) : ch \in Options(st.w, st.key, x, st.dirty) }
================================================================================

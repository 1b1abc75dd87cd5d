------------------------------- MODULE MC_KdTree --------------------------------
(* Both searches with an explicit stack, one node per step, over every tree of at most
   N points in a G x G grid, every query point and radius.                            *)
EXTENDS KdTree, Json
CONSTANTS N, G, Rads
VARIABLES a, q, r, kind, stack, found, best
vars == <<a, q, r, kind, stack, found, best>>
Grid == { <<2 * x, 2 * y>> : x, y \in 0..(G-1) }
Trees == UNION { { t \in [1..n -> Grid] : IsTree(t, 1, n, 1) } : n \in 1..N }
Init == /\ a \in Trees /\ q \in Grid \cup { <<1, 2>>, <<3, 3>> } /\ kind \in {"range", "near"}
        /\ r \in (IF kind = "range" THEN Rads ELSE {0})
        /\ stack = << [k |-> "visit", lo |-> 1, hi |-> Len(a), lev |-> 1, d |-> 0] >>
        /\ found = {} /\ best = 1
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Visit(lo, hi, lev) == [k |-> "visit", lo |-> lo, hi |-> hi, lev |-> lev, d |-> 0]
Maybe(lo, hi, lev, d) == [k |-> "maybe", lo |-> lo, hi |-> hi, lev |-> lev, d |-> d]
Node == LET t == Top m == Mid(t.lo, t.hi) dx == a[m][t.lev] - q[t.lev] nxt == (t.lev % 2) + 1
            near == IF dx > 0 THEN Visit(t.lo, m-1, nxt) ELSE Visit(m+1, t.hi, nxt)
            far  == IF dx > 0 THEN Maybe(m+1, t.hi, nxt, dx * dx) ELSE Maybe(t.lo, m-1, nxt, dx * dx)
        IN  /\ stack # << >> /\ t.k = "visit" /\ t.lo =< t.hi
            /\ IF kind = "range"
               THEN /\ found' = (IF 4 * Sq(a[m], q) =< r * r THEN found \cup {m} ELSE found)
                    /\ stack' = Rest \o (IF 4 * dx * dx =< r * r THEN <<[far EXCEPT !.k = "visit"]>> ELSE << >>) \o <<near>>
                    /\ UNCHANGED best
               ELSE /\ best' = (IF Sq(a[m], q) < Sq(a[best], q) THEN m ELSE best)
                    /\ stack' = Rest \o <<far, near>> /\ UNCHANGED found
            /\ UNCHANGED <<a, q, r, kind>>
Leaf == stack # << >> /\ Top.k = "visit" /\ Top.lo > Top.hi /\ stack' = Rest /\ UNCHANGED <<a, q, r, kind, found, best>>
\* the other side is opened only if the splitting line is nearer than the best point so far
Open == /\ stack # << >> /\ Top.k = "maybe"
        /\ stack' = (IF Top.d < Sq(a[best], q) THEN Append(Rest, Visit(Top.lo, Top.hi, Top.lev)) ELSE Rest)
        /\ UNCHANGED <<a, q, r, kind, found, best>>
Next == Node \/ Leaf \/ Open
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Pending == UNION { stack[i].lo..stack[i].hi : i \in 1..Len(stack) }
NothingLost == kind = "range" => Within(a, q, r) \subseteq found \cup Pending
OnlyInside == kind = "range" => found \subseteq Within(a, q, r)
NearestReachable == kind = "near" => \/ Sq(a[best], q) = LeastSq(a, q)
                                     \/ \E i \in Pending : Sq(a[i], q) = LeastSq(a, q)
Exact == stack = << >> => IF kind = "range" THEN found = Within(a, q, r) ELSE Sq(a[best], q) = LeastSq(a, q)
Ends == <>(stack = << >>)
Emit == IF Len(stack) = 1 /\ stack[1].lo = 1 /\ stack[1].hi = Len(a) /\ found = {} /\ kind = "range" /\ stack[1].lev = 1 /\ stack[1].k = "visit"
        THEN PrintT("@@" \o ToJson([X |-> a, q |-> q, r |-> r])) ELSE TRUE
================================================================================

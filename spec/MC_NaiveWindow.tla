------------------------------ MODULE MC_NaiveWindow ------------------------------
EXTENDS NaiveWindow, TLC
CONSTANTS Vals, MaxLen
VARIABLES st, s
vars == <<st, s>>
Init == st = Start /\ s = << >>
Next == \E x \in Vals : Len(s) < MaxLen /\ s' = Append(s, x) /\ st' = Take(st, x)
Spec == Init /\ [][Next]_vars
Last(k, q) == SubSeq(q, Len(q) - k + 1, Len(q))
Before(n) == SubSeq(s, 1, n)
LastPoints == st.win = Last(IF Len(s) < W THEN Len(s) ELSE W, s)
First == st.first = IF Len(s) < W THEN << >> ELSE Before(W)
Reported == LET n == (Len(s) \div Report) * Report
            IN  st.out = IF Len(s) < W THEN << >> ELSE IF n > W THEN Last(W, Before(n)) ELSE Before(W)
================================================================================

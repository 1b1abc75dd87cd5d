------------------------------- MODULE MC_Sets --------------------------------
(* The merging scan: two cursors move over two sorted sequences.                     *)
EXTENDS Sets, Json
CONSTANTS V
VARIABLES a, b, i, j, out, uni, w
vars == <<a, b, i, j, out, uni, w>>
Ops == {"vint", "vdiff", "vuni"}
Init == /\ \E A, B \in SUBSET (0..(V-1)) : a = Sorted(A) /\ b = Sorted(B)
        /\ i = 1 /\ j = 1 /\ out = <<>> /\ uni = <<>> /\ w \in Ops
At(q, k) == IF k > Len(q) THEN V ELSE q[k]   \* V: beyond every vertex
Take(x, inA, inB) ==
    LET keep == CASE w = "vint" -> inA /\ inB [] w = "vdiff" -> inA # inB [] OTHER -> TRUE
    IN  out' = (IF keep THEN Append(out, x) ELSE out)
Left  == i =< Len(a) /\ At(a, i) < At(b, j) /\ i' = i + 1 /\ UNCHANGED j /\ Take(a[i], TRUE, FALSE)
Right == j =< Len(b) /\ At(b, j) < At(a, i) /\ j' = j + 1 /\ UNCHANGED i /\ Take(b[j], FALSE, TRUE)
Both  == i =< Len(a) /\ j =< Len(b) /\ a[i] = b[j] /\ i' = i + 1 /\ j' = j + 1 /\ Take(a[i], TRUE, TRUE)
Next == (Left \/ Right \/ Both) /\ UNCHANGED <<a, b, uni, w>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == i > Len(a) /\ j > Len(b)
AlwaysSorted == IsSortedSeq(out)
\* invariant of the scan: what has been put out is the result on the prefixes consumed
PrefixExact == RangeOf(out) = Result(w, RangeOf(SubSeq(a, 1, i-1)), RangeOf(SubSeq(b, 1, j-1)))
Correct == Done => out = Sorted(Result(w, RangeOf(a), RangeOf(b)))
Ends == <>Done
\* algebra the boundary code relies on
Algebra == LET A == RangeOf(a) B == RangeOf(b) IN
    /\ Result("vuni", A, B) = Result("vint", A, B) \cup Result("vdiff", A, B)
    /\ Result("vint", A, B) \cap Result("vdiff", A, B) = {}
    /\ Result("vdiff", Result("vdiff", A, B), B) = A
    /\ (Second("pair", A, B) # {} => Cardinality(Second("pair", A, B)) = Cardinality(Result("vint", A, B)) + 2)
Facets == Cardinality(SubsetSeqs(a, IF Len(a) = 0 THEN 0 ELSE Len(a) - 1)) = IF Len(a) = 0 THEN 1 ELSE Len(a)
Emit == IF i = 1 /\ j = 1 /\ w = "vint" THEN PrintT("@@" \o ToJson([a |-> a, b |-> b])) ELSE TRUE
===============================================================================

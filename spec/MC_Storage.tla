------------------------------ MODULE MC_Storage -------------------------------
(* All histories of operations up to a length on one object, for a few matrices.     *)
EXTENDS Storage, Json

CONSTANTS N, Len1, Mats, Kind, Lim, Dim, Ops

VARIABLES h,     \* the history so far
          D, m, K,
          since  \* operations since the object was last empty
vars == <<h, D, m, K, since>>

MatA == << <<0,1,2,1>>, <<0,0,1,3>>, <<0,0,0,2>>, <<0,0,0,0>> >>
MatB == << <<0,3,1,1>>, <<0,0,2,1>>, <<0,0,0,1>>, <<0,0,0,0>> >>
TwoMats == << MatA, MatB >>

Init == h = <<>> /\ D = 1 /\ m = 0 /\ K = {} /\ since = <<>>

Do(op) == h' = Append(h, op) /\ since' = Append(since, op)
Insert == m < N /\ Do("I") /\ m' = m + 1 /\ K' = InsertInto(Kind, K, Mats[D], m, Lim, Dim) /\ UNCHANGED D
Query(op) == Do(op) /\ UNCHANGED <<D, m, K>>
Expand(d) == Do("X" \o ToString(d)) /\ K' = ExpandTo(Kind, K, m, d) /\ UNCHANGED <<D, m>>
Clear == h' = Append(h, "C") /\ since' = <<>> /\ m' = 0 /\ K' = {} /\ UNCHANGED D
\* a new matrix may be given to an empty object
Matrix == m = 0 /\ D' = 3 - D /\ h' = Append(h, "M") /\ UNCHANGED <<m, K, since>>

Next == Len(h) < Len1 /\
        \/ "I" \in Ops /\ Insert
        \/ "C" \in Ops /\ Clear
        \/ "M" \in Ops /\ Matrix
        \/ \E q \in Ops \cap {"Q", "N", "D2", "D3", "F"} : Query(q)
        \/ \E d \in {1, 2, 3} : ("X" \o ToString(d)) \in Ops /\ Expand(d)
Spec == Init /\ [][Next]_vars

\* --- the properties
\* what is stored depends only on the insertions (and expansions) since the last clearing
RECURSIVE Redo(_, _, _, _)
Redo(ops, i, mm, KK) ==
    IF i > Len(ops) THEN KK
    ELSE CASE ops[i] = "I" -> Redo(ops, i+1, mm+1, InsertInto(Kind, KK, Mats[D], mm, Lim, Dim))
           [] ops[i] \in {"X1", "X2", "X3"} ->
                Redo(ops, i+1, mm, ExpandTo(Kind, KK, mm, CASE ops[i] = "X1" -> 1 [] ops[i] = "X2" -> 2 [] OTHER -> 3))
           [] OTHER -> Redo(ops, i+1, mm, KK)
FunctionOfInsertions == K = Redo(since, 1, 0, {})
\* a tree holds the Rips complex at every moment; a list holds it once expanded
IsRips == Kind \in TreeKinds => K = Rips(m, Mats[D], Lim, FALSE, Dim)
ExpandedIsRips ==
    (Kind \notin TreeKinds /\ Len(h) > 0 /\ h[Len(h)] = "X3" /\ \A s \in K : Cardinality(s) =< 4)
        => K = Rips(m, Mats[D], Lim, TRUE, 3)
FaceClosed == \A s \in K : \A f \in Facets(s) : f = {} \/ f \in K
QueriesArePure == [][Len(h') > Len(h) /\ h'[Len(h')] \in {"Q", "N", "D2", "D3", "F"} => K' = K /\ m' = m]_vars

Emit == IF Len(h) < Len1 THEN TRUE ELSE PrintT("@@" \o ToJson([h |-> h]))
===============================================================================

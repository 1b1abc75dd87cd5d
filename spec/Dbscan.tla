--------------------------------- MODULE Dbscan ---------------------------------
(* Density based clusters: what a labelling must satisfy, for points with doubled
   coordinates, radius r (four times) and threshold p.  Labels: -1 noise, 1.. clusters. *)
EXTENDS Partition, TLC

Neigh(X, r) == [i \in 1..Len(X) |-> { j \in 1..Len(X) : 4 * Sq(X[i], X[j]) =< r * r }]
Cores(Nb, p) == { i \in DOMAIN Nb : Cardinality(Nb[i]) >= p }
RECURSIVE Reach(_, _, _, _)
Reach(Nb, C, seen, front) ==
    IF front = {} THEN seen
    ELSE LET new == ((UNION { Nb[i] : i \in front }) \cap C) \ seen IN Reach(Nb, C, seen \cup new, new)
Component(Nb, C, i) == Reach(Nb, C, {i}, {i})

Valid(X, r, p, L) ==
    LET Nb == TLCEval(Neigh(X, r)) C == TLCEval(Cores(Nb, p)) comp == TLCEval([i \in C |-> Component(Nb, C, i)])
        used == { L[i] : i \in C }
    IN  /\ \A i \in 1..Len(X) : L[i] = -1 \/ L[i] >= 1
        /\ \A i \in C : L[i] >= 1 /\ \A j \in C : (L[i] = L[j]) = (j \in comp[i])
        /\ \A i \in (1..Len(X)) \ C : IF Nb[i] \cap C = {} THEN L[i] = -1 ELSE \E j \in Nb[i] \cap C : L[i] = L[j]
        /\ used = 1..Cardinality(used)
================================================================================

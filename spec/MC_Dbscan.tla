------------------------------- MODULE MC_Dbscan --------------------------------
(* The labelling one point at a time, with a queue of neighbours still to be expanded;
   the next unvisited point and the next queued point are taken in any order.         *)
EXTENDS Dbscan, Json
CONSTANTS N, G, Rads, Mins
VARIABLES X, r, p, L, queue, label
vars == <<X, r, p, L, queue, label>>
Init == /\ X \in UNION { [1..n -> { <<2 * x>> : x \in 0..G }] : n \in 0..N }
        /\ r \in Rads /\ p \in Mins /\ L = [i \in 1..Len(X) |-> 0] /\ queue = {} /\ label = 0
Start == /\ queue = {} /\ \E i \in 1..Len(X) : /\ L[i] = 0
            /\ LET nb == Neigh(X, r)[i]
               IN  IF Cardinality(nb) < p THEN L' = [L EXCEPT ![i] = -1] /\ UNCHANGED <<queue, label>>
                   ELSE queue' = nb /\ label' = label + 1 /\ UNCHANGED L
         /\ UNCHANGED <<X, r, p>>
Expand == /\ \E i \in queue :
             LET nb == Neigh(X, r)[i]
             IN  CASE L[i] = -1 -> L' = [L EXCEPT ![i] = label] /\ queue' = queue \ {i}
                   [] L[i] = 0 -> L' = [L EXCEPT ![i] = label] /\ queue' = ((queue \cup (IF Cardinality(nb) >= p THEN nb ELSE {})) \ {i})
                   [] OTHER -> queue' = queue \ {i} /\ UNCHANGED L
          /\ UNCHANGED <<X, r, p, label>>
\* points already carrying the current label need not be queued again
Next == Start \/ Expand
Spec == Init /\ [][Next]_vars
Done == queue = {} /\ \A i \in 1..Len(X) : L[i] # 0
Correct == Done => Valid(X, r, p, L)
InRange == \A i \in 1..Len(X) : L[i] =< label
NoiseIsNotCore == \A i \in 1..Len(X) : L[i] = -1 => Cardinality(Neigh(X, r)[i]) < p
Emit == IF label = 0 /\ \A i \in 1..Len(X) : L[i] = 0 THEN PrintT("@@" \o ToJson([X |-> X, r |-> r, p |-> p])) ELSE TRUE
================================================================================

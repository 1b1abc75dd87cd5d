------------------------------- MODULE MC_KMeans --------------------------------
(* All data sets of at most N points on a line, all seeds, all tie breaks.            *)
EXTENDS KMeans, Json
CONSTANTS N, G, Ks, Iters, AnyTie
VARIABLES X, k, z, C, L, last, round, phase
vars == <<X, k, z, C, L, last, round, phase>>
Init == /\ X \in UNION { [1..n -> { <<x>> : x \in 0..G }] : n \in 1..N } /\ k \in Ks /\ z \in Iters
        /\ \E f \in Seedings(X, k) : C = [j \in 1..Size(X, k) |-> AtPoint(f[j])]
        /\ L = << >> /\ last = << >> /\ round = 0 /\ phase = "assign"
Assign == /\ phase = "assign" /\ round < z
          /\ IF AnyTie THEN \E A \in Assignments(X, C) : L' = A ELSE L' = Lowest(X, C)
          /\ phase' = "update" /\ UNCHANGED <<X, k, z, C, last, round>>
Move == /\ phase = "update" /\ C' = Update(X, C, L) /\ last' = L /\ round' = round + 1
        /\ phase' = (IF L = last THEN "settled" ELSE "assign") /\ UNCHANGED <<X, k, z, L>>
Stop == phase = "assign" /\ round = z /\ phase' = "stopped" /\ UNCHANGED <<X, k, z, C, L, last, round>>
Next == Assign \/ Move \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Over == phase \in {"settled", "stopped"}
Ends == <>Over
Count == Len(C) = Size(X, k) /\ Len(C) =< k
Means == phase # "update" /\ round > 0 => MeansExact(X, C, last)
Near == phase = "settled" => Settled(X, C, last)
Hull == \A j \in 1..Len(C) : C[j].n > 0 /\ \E a, b \in 1..Len(X) : X[a][1] * C[j].n =< C[j].s[1] /\ C[j].s[1] =< X[b][1] * C[j].n
\* twelve rounds settle every input of this size
SettlesSoon == (z >= 12 /\ Over) => phase = "settled"
Covered == Over /\ round > 0 => [C |-> C, L |-> last] \in Outcomes(X, k, z)
Emit == IF round = 0 /\ phase = "assign" THEN PrintT("@@" \o ToJson([X |-> X, k |-> k, z |-> z])) ELSE TRUE
================================================================================

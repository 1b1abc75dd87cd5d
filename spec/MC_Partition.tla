----------------------------- MODULE MC_Partition ------------------------------
(* One pass over the data; every data set of at most N points on a line 0..G with any
   labelling by K clusters and any centroids.                                        *)
EXTENDS Partition, Json
CONSTANTS N, G, K
VARIABLES X, L, C, r, i, lab, rad, cover
vars == <<X, L, C, r, i, lab, rad, cover>>
Empty == [j \in 1..K |-> <<>>]
Init == /\ \E n \in 0..N : X \in [1..n -> {<<2 * g>> : g \in 0..G}] /\ L \in [1..n -> 0..(K-1)]
        /\ C \in [1..K -> {<<g>> : g \in {0, 3, 2 * G}}]
        /\ r \in {0, 4, 6, 8 * G} /\ i = 1 /\ lab = Empty /\ rad = Empty /\ cover = 0
Next == /\ i =< Len(X) /\ i' = i + 1
        /\ lab' = [lab EXCEPT ![L[i] + 1] = Append(@, i - 1)]
        /\ rad' = [j \in 1..K |-> IF 4 * Sq(X[i], C[j]) < r * r THEN Append(rad[j], i - 1) ELSE rad[j]]
        /\ cover' = Max2(cover, Sq(X[i], C[L[i] + 1]))
        /\ UNCHANGED <<X, L, C, r>>
Spec == Init /\ [][Next]_vars
Done == i > Len(X)
ElemsOf(q) == { q[k] : k \in 1..Len(q) }
Agrees == Done => lab = ByLabel(X, L, K) /\ rad = ByRadius(X, C, r) /\ cover = CoverSq(X, C, L)
OnceEach == Done => /\ UNION { ElemsOf(lab[j]) : j \in 1..K } = 0..(Len(X) - 1)
                    /\ \A j, k \in 1..K : j # k => ElemsOf(lab[j]) \cap ElemsOf(lab[k]) = {}
                    /\ \A j \in 1..K : Cardinality(ElemsOf(lab[j])) = Len(lab[j])
InOrder == \A j \in 1..K : \A a, b \in 1..Len(rad[j]) : a < b => rad[j][a] < rad[j][b]
\* a radius beyond the covering radius gives every centroid its own points
Covers == Done /\ 4 * cover < r * r => \A j \in 1..K : ElemsOf(lab[j]) \subseteq ElemsOf(rad[j])
\* twice a positive covering radius does
Twice == Done /\ cover > 0 => LET part == [j \in 1..K |-> Pick(Len(X), LAMBDA p : Sq(X[p+1], C[j]) < 4 * cover)]
                              IN  \A j \in 1..K : ElemsOf(lab[j]) \subseteq ElemsOf(part[j])
RoundTrip == Done => \A j \in 1..K : MapBack(rad[j], 0..(Len(rad[j]) - 1)) = ElemsOf(rad[j])
Emit == IF i = 1 THEN PrintT("@@" \o ToJson([X |-> X, L |-> L, C |-> C, r |-> r])) ELSE TRUE
===============================================================================

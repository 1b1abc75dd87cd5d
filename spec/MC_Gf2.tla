-------------------------------- MODULE MC_Gf2 ---------------------------------
(* Elimination column by column, one row addition per step, for every matrix of at most
   R rows and C columns.  A row chosen as pivot of a column is cleared into `piv'.    *)
EXTENDS Gf2, Json
CONSTANTS R, C
VARIABLES m0, m, piv, col, j, cur, wide
vars == <<m0, m, piv, col, j, cur, wide>>
Init == /\ wide \in 0..C
        /\ \E n \in 0..R : m0 \in [1..n -> SUBSET (0..(wide-1))]
        /\ m = m0 /\ piv = << >> /\ col = 0 /\ j = 1 /\ cur = 0
Advance == IF j < Len(m) THEN j' = j + 1 /\ UNCHANGED <<col, cur>> ELSE j' = 1 /\ col' = col + 1 /\ cur' = 0
Going == col < wide /\ Len(m) > 0
Choose == Going /\ cur = 0 /\ col \in m[j] /\ cur' = j /\ piv' = (j :> m[j]) @@ piv
          /\ m' = [m EXCEPT ![j] = {}]
          /\ IF j < Len(m) THEN j' = j + 1 /\ UNCHANGED col ELSE FALSE
ChooseLast == Going /\ cur = 0 /\ col \in m[j] /\ j = Len(m) /\ piv' = (j :> m[j]) @@ piv
          /\ m' = [m EXCEPT ![j] = {}] /\ j' = 1 /\ col' = col + 1 /\ cur' = 0
Clear == Going /\ cur # 0 /\ col \in m[j] /\ m' = [m EXCEPT ![j] = Xor(m[j], piv[cur])] /\ Advance /\ UNCHANGED piv
Skip == Going /\ col \notin m[j] /\ Advance /\ UNCHANGED <<m, piv>>
Next == (Choose \/ ChooseLast \/ Clear \/ Skip) /\ UNCHANGED <<m0, wide>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == ~Going

Left == [i \in 1..Len(m) |-> IF i \in DOMAIN piv THEN Xor(m[i], piv[i]) ELSE m[i]]
\* every step keeps the row space; the pivot rows are the growth rows
SpanKept == SpanOf(Left, Len(m)) = SpanOf(m0, Len(m0))
PivotsAreGrowth == Done => { i - 1 : i \in DOMAIN piv } = Grows(m0)
RankIsDim == Done => Cardinality(DOMAIN piv) = Log2(Cardinality(SpanOf(m0, Len(m0))))
BasisRight == RankOf(m0) = Log2(Cardinality(SpanOf(m0, Len(m0)))) /\ SameSpan(m0, Left)
RestIsZero == Done => \A i \in 1..Len(m) : m[i] = {}
Ends == <>Done
Emit == IF m = m0 /\ col = 0 /\ j = 1 THEN PrintT("@@" \o ToJson([m |-> m0, w |-> wide])) ELSE TRUE
===============================================================================

---------------------------------- MODULE Gf2 ----------------------------------
(* Linear algebra over GF(2).  A vector is the set of its positions holding a 1.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Xor(A, B) == (A \ B) \cup (B \ A)
Least(S) == CHOOSE x \in S : \A y \in S : x =< y

\* --- definition: the span, and the rank as the dimension of the span
RECURSIVE SpanOf(_, _)
SpanOf(rows, n) == IF n = 0 THEN { {} } ELSE LET S == SpanOf(rows, n-1) IN S \cup { Xor(v, rows[n]) : v \in S }
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)

\* --- an echelon basis [leading position -> vector], used where spans are too big
RECURSIVE Residue(_, _)
Residue(B, v) ==
    LET lead == { p \in v : p \in DOMAIN B }
    IN  IF lead = {} THEN v ELSE Residue(B, Xor(v, B[Least(lead)]))
\* B[p] has p as its least position, hence Residue only ever clears the least position in DOMAIN B upwards
AddRow(B, v) == LET r == Residue(B, v) IN IF r = {} THEN B ELSE (Least(r) :> r) @@ B
RECURSIVE BasisOf(_, _)
BasisOf(rows, n) == IF n = 0 THEN << >> ELSE AddRow(BasisOf(rows, n-1), rows[n])
RankOf(rows) == Cardinality(DOMAIN BasisOf(rows, Len(rows)))
SameSpan(r1, r2) == LET A == BasisOf(r1, Len(r1)) B == BasisOf(r2, Len(r2))
    IN  /\ \A i \in 1..Len(r1) : Residue(B, r1[i]) = {}
        /\ \A i \in 1..Len(r2) : Residue(A, r2[i]) = {}
\* the rows (from 0) at which the rank of the leading rows grows
Grows(rows) == { j \in 0..(Len(rows)-1) : Residue(BasisOf(rows, j), rows[j+1]) # {} }

\* --- incidence of two families of simplices
IsFace(f, s) == s = {} \/ Cardinality(Xor(f, s)) = 1
Incidence(fs, ss) == [i \in 1..Len(fs) |-> { j-1 : j \in { k \in 1..Len(ss) : IsFace(fs[i], ss[k]) } }]
===============================================================================

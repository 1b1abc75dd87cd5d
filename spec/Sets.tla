--------------------------------- MODULE Sets ---------------------------------
(* The set helpers: what each returns, and the merging scan over two sorted sequences
   that computes it one comparison at a time.                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

RangeOf(q) == { q[i] : i \in 1..Len(q) }
Distinct(q) == Len(q) = Cardinality(RangeOf(q))
IsSortedSeq(q) == \A i \in 1..(Len(q)-1) : q[i] < q[i+1]
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
SymDiffOf(A, B) == (A \ B) \cup (B \ A)

\* the result as a set, by operation
Result(w, A, B) ==
    CASE w \in {"vint", "sint"} -> A \cap B
      [] w \in {"vdiff", "sdiff", "xor"} -> SymDiffOf(A, B)
      [] w = "vuni" -> A \cup B
      [] w = "pair" -> IF Cardinality(SymDiffOf(A, B)) = 2 THEN SymDiffOf(A, B) ELSE {}
Second(w, A, B) == IF w = "pair" /\ Cardinality(SymDiffOf(A, B)) = 2 THEN A \cup B ELSE {}

\* subsets of k elements of a sequence of distinct entries, each in the order of the sequence
SubsetSeqs(q, k) == { [i \in 1..k |-> q[Sorted(I)[i]]] : I \in { J \in SUBSET (1..Len(q)) : Cardinality(J) = k } }
===============================================================================

------------------------------ MODULE MC_Window -------------------------------
(* All streams of at most MaxLen points with positions in Pos.                         *)
EXTENDS Window, Json
CONSTANTS Pos, MaxLen
VARIABLES st, stream, prev
vars == <<st, stream, prev>>
Init == st = Begin /\ stream = << >> /\ prev = Begin
Next == \E x \in Pos : /\ Len(stream) < MaxLen /\ stream' = Append(stream, x) /\ prev' = st
                       /\ \E r \in Consume(st, <<x>>) : st' = r
Spec == Init /\ [][Next]_vars
Range1(w) == { w[i].k : i \in 1..Len(w) }
Size == Len(st.w) = IF Len(stream) < W THEN Len(stream) ELSE W
KeysGrow == \A i, j \in 1..Len(st.w) : i < j => st.w[i].k < st.w[j].k
\* admitted: the last one is the new point; at most one point left, and only for it
OneForOne == LET new == st.key # prev.key
             IN  /\ st.key \in {prev.key, prev.key + 1}
                 /\ ~new => st.w = prev.w
                 /\ new => st.w[Len(st.w)].k = prev.key /\ st.w[Len(st.w)].x = <<stream[Len(stream)]>>
                 /\ new /\ Len(prev.w) = W => Cardinality(Range1(prev.w) \ Range1(st.w)) = 1
\* a position already in a pure window is never admitted; in a mixed one every point is
Admission == Len(prev.w) = W /\ Len(stream) > W =>
    /\ ~Pure(prev.w) => st.key = prev.key + 1
    /\ Pure(prev.w) /\ (\E i \in 1..W : prev.w[i].x = <<stream[Len(stream)]>>) => st.key = prev.key
    /\ st.key # prev.key /\ Pure(prev.w) => ~Pure(st.w) \/ W = 1
\* the evicted point is the oldest of its partition
OldestOut == Len(prev.w) = W /\ st.key # prev.key =>
    \A i \in 1..W : prev.w[i].k \notin Range1(st.w) => \A j \in 1..W : prev.w[j].p = prev.w[i].p => i =< j
\* a point is never farther than 5 from its partition when it joins it, unless the window was filling
Joins == Len(prev.w) = W /\ st.key # prev.key =>
    LET n == st.w[W] IN n.p \in Parts(prev.w) => \E i \in 1..W : prev.w[i].p = n.p /\ Sq(prev.w[i].x, n.x) =< 25
NewLabel == Len(prev.w) = W /\ st.key # prev.key /\ st.w[W].p \notin Parts(prev.w) => \A p \in Parts(prev.w) : st.w[W].p > p
\* without an outdated partition the receiving partition grows or is new
Grows == Len(prev.w) = W /\ st.key # prev.key /\ ~Pure(prev.w) /\ Outdated(prev.w, prev.key) = {} /\ st.w[W].p \in Parts(prev.w)
            => Count(st.w, st.w[W].p) = Count(prev.w, st.w[W].p) + 1
OutdatedFirst == Len(prev.w) = W /\ st.key # prev.key /\ ~Pure(prev.w) /\ Outdated(prev.w, prev.key) # {}
            => \A i \in 1..W : prev.w[i].k \notin Range1(st.w) => prev.w[i].p \in Outdated(prev.w, prev.key)
Emit == IF Len(stream) = MaxLen THEN PrintT("@@" \o ToJson([s |-> stream])) ELSE TRUE
================================================================================

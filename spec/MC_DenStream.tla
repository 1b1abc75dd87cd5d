------------------------------ MODULE MC_DenStream -------------------------------
(* All streams of at most MaxLen points of 0..G after each of three starts.            *)
EXTENDS DenStream, Json
CONSTANTS G, MaxLen, Eps, B, Block
VARIABLES st, fed, run, todo, lost, start
vars == <<st, fed, run, todo, lost, start>>
Starts == { <<>>, << <<0, MinPoints>> >>, << <<0, MinPoints>>, <<G, MinPoints + 1>> >> }
StartOf(s) == IF s = << >> THEN [p |-> << >>, o |-> << >>, tick |-> 0, n |-> 0]
              ELSE Start([i \in 1..Len(s) |-> <<s[i][1]>>], [i \in 1..Len(s) |-> s[i][2]], Eps)
Init == start \in Starts /\ st = StartOf(start) /\ fed = 0 /\ run = << >> /\ todo = <<0, 0>> /\ lost = FALSE
\* the stream comes in runs of equal points
Choose == \E x \in 0..G, m \in Block : /\ todo[2] = 0 /\ Len(run) < MaxLen
                                       /\ todo' = <<x, m>> /\ run' = Append(run, <<x, m>>) /\ UNCHANGED <<st, fed, lost, start>>
Size(s) == Len(s.p) + Len(s.o)
Step == /\ todo[2] > 0 /\ \E r \in Feed(st, <<todo[1]>>, Eps, B) : st' = r
        /\ lost' = (lost \/ (Clocked(st).n = 0 /\ Prune(st', B) # st'))
        /\ fed' = fed + Pow(B, Clocked(st).tick) /\ todo' = <<todo[1], todo[2] - 1>> /\ UNCHANGED <<run, start>>
Next == Choose \/ Step
Spec == Init /\ [][Next]_vars
All == st.p \o st.o
RECURSIVE TotalW(_)
TotalW(s) == IF s = << >> THEN 0 ELSE Head(s).w + TotalW(Tail(s))
\* nothing is counted twice; nothing is lost before the first pruning
Conserved == TotalW(All) =< fed + TotalW(StartOf(start).p) /\ (st.tick = 0 => TotalW(All) = fed + TotalW(StartOf(start).p))
Bounded == \A i \in 1..Len(All) : R2num(All[i]) =< Eps * Eps * R2den(All[i])
Candidates == \A i \in 1..Len(st.o) : st.o[i].w =< Thr * Pow(B, st.tick) /\ st.o[i].w > 0
Kept == st.n = 0 /\ fed > 0 => /\ \A i \in 1..Len(st.p) : st.p[i].w >= Thr * Pow(B, st.tick)
                               /\ \A i \in 1..Len(st.o) : st.o[i].w >= Since(B, st.o[i].born, st.tick)
\* a candidate that got a single point does not outlive the unit after the one it came in
Forgotten == st.n = 0 => \A i \in 1..Len(st.o) : st.o[i].w = Pow(B, st.o[i].born) => st.o[i].born = st.tick
\* promoted clusters and clusters of the start never fall below the threshold unnoticed
Emit == IF todo[2] = 0 /\ Len(run) = MaxLen THEN PrintT("@@" \o ToJson([start |-> start, run |-> run])) ELSE TRUE
================================================================================

------------------------------- MODULE MC_Reports --------------------------------
(* When a stream of n points is reported, for every length up to MaxLen and every window up
   to MaxW: the number and the places of the reports.                                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxLen, MaxW, Report
VARIABLES w, n, reps, ended, handed
vars == <<w, n, reps, ended, handed>>
\* reps: positions of the stream at which a report was written; handed: position of the window handed on last
Init == w \in 1..MaxW /\ n = 0 /\ reps = << >> /\ ended = FALSE /\ handed = 0
Point == /\ ~ended /\ n < MaxLen /\ n' = n + 1 /\ UNCHANGED <<w, ended>>
         /\ LET now == (n+1) % Report = 0 /\ n+1 > w IN
            /\ reps' = IF now THEN Append(reps, n+1) ELSE reps
            /\ handed' = IF now \/ n+1 = w THEN n+1 ELSE handed
End == /\ ~ended /\ ended' = TRUE /\ UNCHANGED <<w, n, handed>>
       /\ reps' = IF n % Report # 0 /\ handed > 0 THEN Append(reps, handed) ELSE reps
Next == Point \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(End)
Short == n < w => reps = << >>
Regular == \A i \in 1..Len(reps) : reps[i] >= w /\ (i < Len(reps) => reps[i] < reps[i+1] \/ (ended /\ i + 1 = Len(reps) /\ reps[i] = reps[i+1]))
Every == \A k \in 1..n : k % Report = 0 /\ k > w => \E i \in 1..Len(reps) : reps[i] = k
Closed == ended /\ n >= w /\ ~(n = w /\ n % Report = 0) /\ n > 0 => Len(reps) > 0
Finally == (n >= w /\ n % Report # 0 ~> Len(reps) > 0)
================================================================================

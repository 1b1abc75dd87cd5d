-------------------------------- MODULE MC_Micro ---------------------------------
(* One micro-cluster kept incrementally, against the sums over its whole history.      *)
EXTENDS Micro, Json
CONSTANTS G, MaxN, MaxTick, B
VARIABLES c, hist, tick
vars == <<c, hist, tick>>
Init == c = Empty(1, 0) /\ hist = << >> /\ tick = 0
Insert == \E x \in 0..G : /\ Len(hist) < MaxN
                          /\ c' = Add(c, <<x>>, Pow(B, tick)) /\ hist' = Append(hist, <<x, tick>>) /\ tick' = tick
Pass == tick < MaxTick /\ tick' = tick + 1 /\ UNCHANGED <<c, hist>>
Next == Insert \/ Pass
Spec == Init /\ [][Next]_vars
RECURSIVE S(_, _, _)
S(h, i, p) == IF i = 0 THEN 0 ELSE Pow(B, h[i][2]) * Pow(h[i][1], p) + S(h, i-1, p)
FromScratch == c.w = S(hist, Len(hist), 0) /\ c.ls = <<S(hist, Len(hist), 1)>> /\ c.ss = S(hist, Len(hist), 2)
\* the spread is the mean squared distance to the mean: w^3 times it, point by point
RECURSIVE Spread(_, _)
Spread(h, i) == IF i = 0 THEN 0 ELSE Pow(B, h[i][2]) * (c.w * h[i][1] - c.ls[1]) * (c.w * h[i][1] - c.ls[1]) + Spread(h, i-1)
Radius == Len(hist) > 0 => R2num(c) * c.w = Spread(hist, Len(hist))
NonNegative == R2num(c) >= 0
PointLike == Len(hist) > 0 => ((R2num(c) = 0) = (\A i \in 1..Len(hist) : hist[i][1] = hist[1][1]))
Inside == Len(hist) > 0 => \E i, j \in 1..Len(hist) : hist[i][1] * c.w =< c.ls[1] /\ c.ls[1] =< hist[j][1] * c.w
\* the order of insertions within the history does not matter, only the ticks do
Weight == Len(hist) > 0 => c.w >= Len(hist) /\ c.w =< Len(hist) * Pow(B, tick)
Emit == IF Len(hist) = MaxN THEN PrintT("@@" \o ToJson([h |-> hist, q |-> tick])) ELSE TRUE
================================================================================

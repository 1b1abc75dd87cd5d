-------------------------------- MODULE DenStream --------------------------------
(* The density stream.  Weighted start: a few positions with multiplicities, clustered by
   density; then one point after the other, Speed points to a unit of time; B = 2^lambda. *)
EXTENDS Micro
CONSTANTS Speed, MinPoints, Thr          \* Thr: least weight of a kept cluster, beta * mu

\* ---- the first points: positions P with multiplicities M, clusters of density within eps
Dist2(x, y) == Norm2([d \in 1..Len(x) |-> x[d] - y[d]])
Around(P, i, eps) == { j \in 1..Len(P) : Dist2(P[i], P[j]) =< eps * eps }
RECURSIVE SumM(_, _)
SumM(M, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN M[i] + SumM(M, I \ {i})
DenseCores(Nb, M) == { i \in DOMAIN Nb : SumM(M, Nb[i]) >= MinPoints }
RECURSIVE Grow(_, _, _, _)
Grow(Nb, C, seen, front) == IF front = {} THEN seen
    ELSE LET new == (UNION { Nb[i] : i \in front }) \ seen IN Grow(Nb, C, seen \cup new, new \cap C)
\* the clusters as sets of positions, in an order of no importance; no position may be
\* within reach of two (the recorder sees to it)
Groups(P, M, eps) ==
    LET Nb == [i \in 1..Len(P) |-> Around(P, i, eps)] C == DenseCores(Nb, M)
    IN  { Grow(Nb, C, {i}, {i}) : i \in C }
RECURSIVE Gather(_, _, _, _)
Gather(c, P, M, I) == IF I = {} THEN c ELSE LET i == CHOOSE i \in I : TRUE IN Gather(AddN(c, P[i], 1, M[i]), P, M, I \ {i})
Start(P, M, eps) == [p |-> [k \in 1..Cardinality(Groups(P, M, eps)) |->
                               Gather(Empty(Len(P[1]), 0), P, M, SetToSeq(Groups(P, M, eps))[k])],
                     o |-> << >>, tick |-> 0, n |-> 0]

\* ---- one point of the stream.  Exact ties go either way.
Grain == 250
Offset(c, x, d) == Fix(c.w * x[d] - c.ls[d], c.w, Grain)
Apart(c, x) == Norm2([d \in 1..Len(x) |-> Offset(c, x, d)])
RECURSIVE Blur(_, _, _)
Blur(c, x, d) == IF d = 0 THEN 0 ELSE 2 * Abs(Offset(c, x, d)) + 1 + Blur(c, x, d-1)
Nearest(cs, x) == LET a == [i \in 1..Len(cs) |-> Apart(cs[i], x)]
                      b == [i \in 1..Len(cs) |-> Blur(cs[i], x, Len(x))]
                  IN  { i \in 1..Len(cs) : \A j \in 1..Len(cs) : a[i] - b[i] =< a[j] + b[j] }
MayFit(c, x, u, eps) == LET m == Add(c, x, u) IN R2num(m) =< eps * eps * R2den(m)
MayNotFit(c, x, u, eps) == LET m == Add(c, x, u) IN R2num(m) >= eps * eps * R2den(m)

Fresh(st, x, u) == { [st EXCEPT !.o = Append(@, Add(Empty(Len(x), st.tick), x, u))] }
IntoO(st, x, u, eps) ==
    IF st.o = << >> THEN Fresh(st, x, u)
    ELSE UNION { (IF MayFit(st.o[i], x, u, eps)
                  THEN LET m == Add(st.o[i], x, u)
                       IN  IF m.w > Thr * u THEN { [st EXCEPT !.p = Append(@, m), !.o = RemoveAt(@, i)] }
                           ELSE { [st EXCEPT !.o[i] = m] }
                  ELSE {})
                 \cup (IF MayNotFit(st.o[i], x, u, eps) THEN Fresh(st, x, u) ELSE {}) : i \in Nearest(st.o, x) }
Merge(st, x, u, eps) ==
    IF st.p = << >> THEN IntoO(st, x, u, eps)
    ELSE UNION { (IF MayFit(st.p[i], x, u, eps) THEN { [st EXCEPT !.p[i] = Add(@, x, u)] } ELSE {})
                 \cup (IF MayNotFit(st.p[i], x, u, eps) THEN IntoO(st, x, u, eps) ELSE {}) : i \in Nearest(st.p, x) }
\* a candidate stays if it got at least one point per unit since it began
RECURSIVE Since(_, _, _)
Since(B, a, b) == IF a > b THEN 0 ELSE Pow(B, b) + Since(B, a, b-1)
Prune(st, B) == [st EXCEPT !.p = SelectSeq(@, LAMBDA c : c.w >= Thr * Pow(B, st.tick)),
                           !.o = SelectSeq(@, LAMBDA c : c.w >= Since(B, c.born, st.tick))]
Clocked(st) == IF st.n + 1 = Speed THEN [st EXCEPT !.n = 0, !.tick = @ + 1] ELSE [st EXCEPT !.n = @ + 1]
Feed(st, x, eps, B) == LET s == Clocked(st) u == Pow(B, s.tick)
                       IN  { IF s.n = 0 THEN Prune(r, B) ELSE r : r \in Merge(s, x, u, eps) }
================================================================================

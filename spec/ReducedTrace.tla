----------------------------- MODULE ReducedTrace ------------------------------
(* Recorded runs of the program in its reduced mode, or in another mode with a clustering,
   when the centroids alone go through the pipeline.  A run:
     args            the argument list
     X, Q, L         points and centroids in one unit, labels from 0 (as the program left them)
     lim, dims       limit (squared, same unit) and dimension by the text of the option
     ev              one "run" [exit, out, m]: files as in ProgramTrace, m the merged table, entries [dim, birth, death, points]  *)
EXTENDS Program, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok
vars == <<c, l, ok>>
T == Traces[c]
E == T.ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
CountOf(B) == MapThenSumSet(LAMBDA x : B[x], DOMAIN B)
AsSet(q) == { q[i] : i \in 1..Len(q) }

\* every centroid that owns points is their mean
MeansExact(X, Q, L) ==
    \A j \in 1..Len(Q) :
        LET own == { i \in 1..Len(X) : L[i] = j - 1 } IN
        own # {} => \A d \in 1..Len(Q[j]) : MapThenSumSet(LAMBDA i : X[i][d], own) = Cardinality(own) * Q[j][d]

\* the entries of one pass over the points Y, which are the positions I of the input
SegmentOk(es, p, Y, I, lim) ==
    LET D == Weights(Y)
        Local(P) == { i \in 0..(Len(I)-1) : I[i+1] \in P } IN
    /\ MOfSeq([i \in 1..Len(es) |-> <<es[i][1], es[i][2], es[i][3]>>]) = p.table
    /\ \A i \in 1..Len(es) :
         LET x == es[i]
             P == Local(AsSet(x[4])) IN
         /\ AsSet(x[4]) \subseteq AsSet(I)
         /\ x[1] = 0 => \/ P = {} /\ x[3] = lim
                        \/ P # {} /\ \E s \in { t \in p.K : Cardinality(t) = 2 } : P \subseteq s /\ Diam(D, s) = x[3]
         /\ x[1] > 0 => \E s \in { t \in p.K : Cardinality(t) = x[1] + 1 } : s \subseteq P /\ Diam(D, s) = x[2]

RunOk ==
    LET g == Config(T.args)
        lim == T.lim[g.epsilon]
        dims == T.dim[g.dimensions]
        clustered == Preprocessor(g.preprocessor) = "kmeans"
        Q == IF clustered THEN T.Q ELSE T.X
        L == IF clustered THEN T.L ELSE <<>>
        reduced == g.mode = "reduced"
        P == IF clustered /\ reduced THEN PartsOf(T.X, Q, L) ELSE <<>>
        Is == P \o << [j \in 1..Len(Q) |-> j - 1] >>
        Ys == [i \in 1..Len(P) |-> Take(T.X, P[i])] \o <<Q>>
        start == [NewPacket EXCEPT !.rows = IF clustered THEN << <<"k-means++">> >> ELSE <<>>]
        step(st, i) ==
            LET p == Pass(g, Input(g, Ys[i], lim, dims), NextPart(st.p))
                k == CountOf(p.table)
                es == SubSeq(E.m, st.at + 1, IF st.at + k < Len(E.m) THEN st.at + k ELSE Len(E.m))
            IN  IF ~st.ok THEN st
                ELSE [p |-> p, at |-> st.at + k, ok |-> st.at + k =< Len(E.m) /\ SegmentOk(es, p, Ys[i], Is[i], lim)]
        r == FoldLeft(step, [p |-> start, at |-> 0, ok |-> TRUE], [i \in 1..Len(Ys) |-> i])
    IN  /\ E.exit = 0
        /\ g.upscale # "true"
        /\ clustered => /\ Len(L) = Len(T.X) /\ \A i \in 1..Len(L) : L[i] + 1 \in 1..Len(Q)
                        /\ MeansExact(T.X, Q, L)
        /\ IF reduced THEN r.ok /\ r.at = Len(E.m) ELSE E.m = <<>>
        /\ IF g.outputFile = "console" THEN E.out = <<>>
           ELSE /\ Len(E.out) = 1
                /\ E.out[1].base = g.outputFile /\ E.out[1].both /\ E.out[1].heads
                /\ E.out[1].rows = r.p.rows /\ MOfSeq(E.out[1].b) = r.p.bars
TraceNext == /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
             /\ ok' = CASE E.e = "run" -> RunOk [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

-------------------------------- MODULE Program --------------------------------
(* The command line program: arguments -> configuration -> preprocessor -> pipeline ->
   files, in the standard mode and in the reduced mode (clusters first).

   Points have integer coordinates in units of 1/u (u = 2 for data whose coordinates are
   halves; in the reduced mode u = 2 L with L a common multiple of the cluster sizes, so
   that centroids are exact).  Weights are squared distances in these units.          *)
EXTENDS Stages
C == INSTANCE Config

\* "a.b.c" -> <<"a", "b", "c">>
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, w) == IF i > Len(s) THEN <<w>>
                      ELSE IF SubSeq(s, i, i) = "." THEN <<w>> \o SplitFrom(s, i+1, "")
                      ELSE SplitFrom(s, i+1, w \o SubSeq(s, i, i))
Split(s) == SplitFrom(s, 1, "")

RECURSIVE SqTo(_, _, _)
SqTo(a, b, d) == IF d = 0 THEN 0 ELSE (a[d] - b[d]) * (a[d] - b[d]) + SqTo(a, b, d-1)
Sq(a, b) == SqTo(a, b, Len(a))
Weights(X) == TLCEval([i \in 1..Len(X) |-> [j \in 1..Len(X) |-> IF i < j THEN Sq(X[i], X[j]) ELSE 0]])

Config(args) == C!Plan(C!Parse(args))
AllOptions == Options              \* every option has a value once the arguments are parsed

\* What one pass of the pipeline does to a packet (every stage is configured with all options)
Pass(g, in, p) ==
    FoldLeft(LAMBDA q, s : RunStage(Component(s, g.complexType), Ready(Component(s, g.complexType), AllOptions), in, q),
             p, Split(g.pipeline))
\* a pipeline the program can run
RECURSIVE LegalFrom(_, _, _, _)
LegalFrom(g, in, p, s) ==
    IF s = <<>> THEN TRUE
    ELSE LET c == Component(Head(s), g.complexType) IN
         IF c = "none" THEN LegalFrom(g, in, p, Tail(s))
         ELSE Legal(c, p) /\ LegalFrom(g, in, RunStage(c, TRUE, in, p), Tail(s))
Input(g, X, lim, dims) == [kind |-> g.complexType, n |-> Len(X), D |-> Weights(X), lim |-> lim, dims |-> dims]

\* --- standard mode: the files left behind
NoFiles == [written |-> FALSE, rows |-> <<>>, bars |-> Empty]
Files(p) == [written |-> TRUE, rows |-> p.rows, bars |-> p.bars]
WritesFiles(g, X) == X # <<>> /\ g.upscale # "true" /\ g.outputFile # "console"
StandardRun(g, X, lim, dims) ==
    IF WritesFiles(g, X) THEN Files(Pass(g, Input(g, X, lim, dims), NewPacket)) ELSE NoFiles

\* --- reduced mode
\* X points, Q centroids, L labels (from 0), all in the same units
CoverSq(X, Q, L) == SetMax({ Sq(X[i], Q[L[i] + 1]) : i \in 1..Len(X) }, 0)
\* positions (from 0) of the points strictly within twice the covering radius of centroid j
Near(X, Q, L, j) == LET R == CoverSq(X, Q, L)
                    IN  SelectSeq([i \in 1..Len(X) |-> i - 1], LAMBDA i : Sq(X[i+1], Q[j]) < 4 * R)
PartsOf(X, Q, L) == SelectSeq([j \in 1..Len(Q) |-> Near(X, Q, L, j)], LAMBDA I : I # <<>>)
Take(X, I) == [i \in 1..Len(I) |-> X[I[i] + 1]]
\* the complex is emptied between two passes, the statistics go on
NextPart(p) == [NewPacket EXCEPT !.rows = p.rows, !.dist = p.dist]
\* one pass for every part and one for the centroids: [last packet, segments of the merged table]
ReducedRun(g, X, Q, L, lim, dims, rows) ==
    LET step(st, Y) == LET p == Pass(g, Input(g, Y, lim, dims), NextPart(st.p))
                       IN  [p |-> p, merged |-> Append(st.merged, p.table)]
        P == PartsOf(X, Q, L)
    IN  FoldLeft(step, [p |-> [NewPacket EXCEPT !.rows = rows], merged |-> <<>>],
                 [i \in 1..Len(P) |-> Take(X, P[i])] \o <<Q>>)
===============================================================================

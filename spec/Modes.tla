----------------------------------- MODULE Modes ----------------------------------
(* Which way the program goes for a configuration, and what the ways other than the
   standard and the reduced one leave behind.                                         *)
EXTENDS Program
CONSTANTS Report                      \* points between two reports of a window

\* the way taken, from the resolved configuration and the number of points in the file
Way(g, n) == IF n = 0 /\ g.pipeline # "slidingwindow" THEN "usage"
             ELSE IF g.upscale = "true" THEN "upscale"
             ELSE IF g.mode = "reduced" THEN "reduced"
             ELSE IF g.pipeline = "slidingwindow" THEN "sliding"
             ELSE IF g.pipeline = "naivewindow" THEN "naive"
             ELSE "standard"
Writes(g, n) == Way(g, n) \notin {"usage", "upscale"} /\ g.outputFile # "console"
Clusters(g) == Preprocessor(g.preprocessor) = "kmeans"

\* --- upscaling: the sizes of the k parts by label (from 0); without a clustering they are empty
Sizes(k, L) == [j \in 1..k |-> Cardinality({ i \in 1..Len(L) : L[i] = j - 1 })]

\* --- windows of w points over a stream X (coordinates in halves), complex of the first full one
FirstWindow(w, X) == IF Len(X) < w THEN <<>> ELSE SubSeq(X, 1, w)
WindowComplex(w, X, lim, dims) == LET F == FirstWindow(w, X) IN BuildRips(Len(F), Weights(F), lim, FALSE, dims)
\* the window is reported after these numbers of points
ReportPoints(w, n) == { i \in 1..n : i % Report = 0 /\ i > w } \cup (IF n % Report # 0 /\ n >= w THEN {n} ELSE {})
SlidingRows(w, X, K) == << <<"SlidingWindow", Len(FirstWindow(w, X)), Cardinality(K)>> >>
NaiveRows(w, X, K) == LET v == Len(FirstWindow(w, X)) IN
    (IF v = 0 THEN <<>> ELSE << <<"DistMatrix", 0, 0>>, <<"neighGraph", v, Cardinality(K)>> >>) \o << <<"NaiveWindow", v, Cardinality(K)>> >>
===================================================================================

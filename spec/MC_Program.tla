------------------------------- MODULE MC_Program -------------------------------
(* The program as a machine, for every order and spelling of a set of options, on small
   data; in the reduced mode for every outcome of the clustering.                      *)
EXTENDS Program, Json
K == INSTANCE KMeans
CONSTANTS Opts,         \* options that may be given
          MaxOpts, Clouds, Modes
VARIABLES args, cloud, g, phase, X, Q, L, queue, cur, todo, p, merged, files
vars == <<args, cloud, g, phase, X, Q, L, queue, cur, todo, p, merged, files>>

\* coordinates in halves
Cloud(c) == CASE c = "square" -> << <<0,0>>, <<6,0>>, <<6,6>>, <<0,6>> >>
              [] c = "line"   -> << <<0>>, <<2>>, <<6>>, <<16>> >>
              [] c = "twice"  -> << <<0>>, <<0>>, <<8>> >>
              [] c = "one"    -> << <<5,1>> >>
              [] c = "empty"  -> <<>>
Value(o) == CASE o = "epsilon" -> {"3.5", "4"} [] o = "dimensions" -> {"2"} [] o = "complexType" -> {"simplexArrayList"}
              [] o = "outputFile" -> {"res", "console"} [] o = "mode" -> Modes [] o = "preprocessor" -> {"none"}
              [] o = "pipeline" -> {"distMatrix.nosuch.neighGraph.upscale.rips.fast", "distMatrix.neighGraph.rips.persistence"}
              [] o = "clusters" -> {"2"} [] o = "upscale" -> {"true"} [] OTHER -> {"0"}
Eps(s) == CASE s = "3.5" -> 7 [] s = "4" -> 8 [] s = "5" -> 10           \* in halves
Dim(s) == CASE s = "1" -> 1 [] s = "2" -> 2
Num(s) == CASE s = "2" -> 2 [] s = "20" -> 20
Pair(o, short, v) == <<IF short THEN "-" \o C!Short[o] ELSE "--" \o o, v>>
Orders == UNION { { f \in [1..k -> Opts] : \A i, j \in 1..k : i # j => f[i] # f[j] } : k \in 0..MaxOpts }
None == [x \in {} |-> ""]
Init == /\ cloud \in Clouds
        /\ \E f \in Orders : \E sh \in BOOLEAN : \E v \in [1..Len(f) -> UNION { Value(o) : o \in Opts }] :
             /\ \A i \in 1..Len(f) : v[i] \in Value(f[i])
             /\ args = FlattenSeq([i \in 1..Len(f) |-> Pair(f[i], IF i % 2 = 0 THEN sh ELSE ~sh, v[i])])
        /\ g = None /\ phase = "parse" /\ X = <<>> /\ Q = <<>> /\ L = <<>> /\ queue = <<>> /\ cur = <<>> /\ todo = <<>>
        /\ p = NewPacket /\ merged = <<>> /\ files = NoFiles

Lim(u) == LET e == Eps(g.epsilon) * u IN e * e
In(u) == Input(g, cur, Lim(u), Dim(g.dimensions))
Parse == /\ phase = "parse" /\ g' = Config(args) /\ phase' = "read"
         /\ UNCHANGED <<args, cloud, X, Q, L, queue, cur, todo, p, merged, files>>
Read == /\ phase = "read" /\ X' = Cloud(cloud)
        /\ phase' = IF X' = <<>> \/ g.upscale = "true" THEN "end" ELSE IF g.mode = "reduced" THEN "cluster" ELSE "pass"
        /\ cur' = X' /\ todo' = Split(g.pipeline) /\ queue' = <<>>
        /\ UNCHANGED <<args, cloud, g, Q, L, p, merged, files>>
\* unit 1/2 becomes 1/(2*12): cluster sizes up to 4 divide 12
Scale(q) == [d \in 1..Len(q.s) |-> q.s[d] * (12 \div q.n)]
Ks == IF "reduced" \in Modes THEN {2, 20} ELSE {}
Clustered == [x \in (Clouds \ {"empty"}) \X Ks |-> K!Outcomes(Cloud(x[1]), x[2], 250)]
Cluster == /\ phase = "cluster"
           /\ IF g.preprocessor = "kmeans++"
              THEN \E r \in Clustered[<<cloud, Num(g.clusters)>>] :
                     /\ Q' = [j \in 1..Len(r.C) |-> Scale(r.C[j])] /\ L' = [i \in 1..Len(r.L) |-> r.L[i] - 1]
                     /\ p' = [p EXCEPT !.rows = << <<"k-means++">> >>]
              ELSE Q' = <<>> /\ L' = <<>> /\ p' = p
           /\ X' = [i \in 1..Len(X) |-> [d \in 1..Len(X[i]) |-> 12 * X[i][d]]]
           /\ phase' = "separate" /\ UNCHANGED <<args, cloud, g, queue, cur, todo, merged, files>>
Separate == /\ phase = "separate"
            \* without a clustering the data are their own representatives and carry no label
            /\ LET R == IF g.preprocessor = "kmeans++" THEN Q ELSE X
                   P == IF g.preprocessor = "kmeans++" THEN PartsOf(X, Q, L) ELSE <<>>
                   all == [i \in 1..Len(P) |-> Take(X, P[i])] \o <<R>>
               IN  /\ Q' = R /\ cur' = Head(all) /\ queue' = Tail(all)
            /\ phase' = "pass" /\ UNCHANGED <<args, cloud, g, X, L, todo, p, merged, files>>
U == IF g.mode = "reduced" THEN 12 ELSE 1
Stage == /\ phase = "pass" /\ todo # <<>>
         /\ LET c == Component(Head(todo), g.complexType) IN p' = RunStage(c, Ready(c, AllOptions), In(U), p)
         /\ todo' = Tail(todo) /\ UNCHANGED <<args, cloud, g, phase, X, Q, L, queue, cur, merged, files>>
Write == /\ phase = "pass" /\ todo = <<>>
         /\ files' = IF g.outputFile = "console" THEN NoFiles ELSE Files(p)
         /\ IF g.mode # "reduced" THEN phase' = "end" /\ UNCHANGED <<queue, cur, todo, p, merged>>
            ELSE /\ merged' = Append(merged, p.table)
                 /\ IF queue = <<>> THEN phase' = "end" /\ UNCHANGED <<queue, cur, todo, p>>
                    ELSE cur' = Head(queue) /\ queue' = Tail(queue) /\ todo' = Split(g.pipeline) /\ p' = NextPart(p) /\ phase' = "pass"
         /\ UNCHANGED <<args, cloud, g, X, Q, L>>
Next == Parse \/ Read \/ Cluster \/ Separate \/ Stage \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(phase = "end")
\* the machine computes what the closed forms of Program.tla say
Result == phase = "end" =>
    IF g.mode # "reduced" \/ ~WritesFiles(g, Cloud(cloud)) THEN files = StandardRun(g, Cloud(cloud), Lim(1), Dim(g.dimensions))
                          \/ (g.mode = "reduced" /\ files = NoFiles)
    ELSE g.preprocessor = "kmeans++" =>
         LET r == ReducedRun(g, X, Q, L, Lim(12), Dim(g.dimensions), << <<"k-means++">> >>)
         IN  files = Files(r.p) /\ merged = r.merged
\* for the complete pipeline the file holds the barcode of the Rips filtration of the data
Correct == phase = "end" /\ files.written /\ g.mode # "reduced" /\ g.pipeline # "" =>
    LET D == Weights(X)
        R == Rips(Len(X), D, Lim(1), g.complexType = "simplexArrayList", Dim(g.dimensions))
    IN  IF "persistence" \in { Split(g.pipeline)[i] : i \in 1..Len(Split(g.pipeline)) }
        THEN files.bars = FullBarcode(Len(X), R, D, Lim(1), Dim(g.dimensions))
        ELSE files.bars = Barcode(Len(X), R, D, Lim(1), Dim(g.dimensions))
OneRowPerStage == phase = "end" /\ files.written /\ g.mode # "reduced" =>
    Len(files.rows) = Cardinality({ i \in 1..Len(Split(g.pipeline)) : Component(Split(g.pipeline)[i], g.complexType) # "none" })
\* the order of the options and their spelling do not matter
Given(o) == { k \in 1..Len(args) : k % 2 = 1 /\ args[k] \in {"--" \o o, "-" \o C!Short[o]} }
OptionsOnly == phase = "read" =>
    g = C!Plan([o \in C!Options |-> IF Given(o) = {} THEN C!Default[o] ELSE args[(CHOOSE k \in Given(o) : TRUE) + 1]])
\* reduced mode: every point is in the part of its own centroid, unless all points are their centroids
Covers == phase = "pass" /\ g.mode = "reduced" /\ L # <<>> =>
    LET R == CoverSq(X, Q, L) IN
    /\ \A i \in 1..Len(X) : R > 0 => \E k \in 1..Len(Near(X, Q, L, L[i] + 1)) : Near(X, Q, L, L[i] + 1)[k] = i - 1
    /\ R = 0 => PartsOf(X, Q, L) = <<>>
    /\ \A j \in 1..Len(Q) : LET I == Near(X, Q, L, j) IN \A a, b \in 1..Len(I) : a < b => I[a] < I[b]
Emit == IF phase = "parse" THEN PrintT("@@" \o ToJson([args |-> args, X |-> Cloud(cloud)])) ELSE TRUE
================================================================================

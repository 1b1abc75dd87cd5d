-------------------------------- MODULE Stages --------------------------------
(* The pipeline as a machine: a factory that turns names into components, components
   that accept or refuse a set of options, and the packet that a configured component
   transforms once and an unconfigured one passes on.

   The packet is [dist, m, K, bars, table, rows]: whether the distance matrix is known,
   how many points the complex holds, its simplices, the barcode text, the interval table
   (both as multisets) and the statistics, one <<name, vertices, simplices>> per stage
   that ran.                                                                          *)
EXTENDS Storage, Persistence

\* ------------------------------------------------------------------- the factories
Storages == {"simplexTree", "simplexArrayList", "indSimplexTree"}
StorageOf(name) == IF name \in Storages THEN name ELSE "none"

Component(name, kind) ==
    CASE name = "distMatrix"                   -> "distMatrix"
      [] name = "neighGraph"                   -> "neighGraph"
      [] name = "rips"                         -> "rips"
      [] name = "upscale"                      -> "upscale"
      [] name = "boundary"                     -> "boundary"
      [] name = "persistence" /\ kind \in {"simplexTree", "simplexArrayList"} -> "pairs"
      [] name = "persistence" /\ kind = "indSimplexTree"                      -> "optPairs"
      [] name \in {"slidingwindow", "sliding"} -> "sliding"
      [] name \in {"fastPersistence", "fast"}  -> "fast"
      [] name \in {"naivewindow", "naive"}     -> "naive"
      [] OTHER                                 -> "none"

Preprocessor(name) ==
    CASE name = "none"                                                      -> "base"
      [] name \in {"kmeansplusplus", "kmeans++", "kmeans"}                  -> "kmeans"
      [] name \in {"streamingKmeans", "streamingkmeans", "streamKM"}        -> "streamKM"
      [] name \in {"denStream", "denstream", "DenStream"}                   -> "denStream"
      [] OTHER                                                              -> "none"

\* --------------------------------------------------------------- the configuration
Options == {"epsilon", "dimensions", "twist", "collapse", "clusters", "iterations", "lambda"}
Required(c) ==
    CASE c = "distMatrix"                           -> {"epsilon"}
      [] c \in {"neighGraph", "boundary", "sliding", "naive"} -> {"epsilon", "dimensions"}
      [] c \in {"pairs", "optPairs", "fast"}        -> {"epsilon", "dimensions", "twist"}
      [] c \in {"kmeans", "streamKM"}               -> {"clusters", "iterations"}
      [] c = "denStream"                            -> {"epsilon", "lambda"}
      [] OTHER                                      -> {}
Accepts(c, opts) == c # "none" /\ Required(c) \subseteq opts
\* the base preprocessor accepts everything but is never ready to run
Ready(c, opts) == Accepts(c, opts) /\ c # "base"

RowName(c) ==
    CASE c = "distMatrix" -> "DistMatrix"
      [] c = "neighGraph" -> "neighGraph"
      [] c = "rips"       -> "ripsPipe"
      [] c = "upscale"    -> "Upscale"
      [] c = "boundary"   -> "Boundary"
      [] c \in {"pairs", "optPairs"} -> "PersistencePairs"
      [] c = "fast"       -> "FastPersistence"
      [] c = "sliding"    -> "SlidingWindow"
      [] c = "naive"      -> "NaiveWindow"
      [] c = "kmeans"     -> "k-means++"
      [] c = "streamKM"   -> "streamingKmeans"
      [] c = "denStream"  -> "DenStream"
      [] OTHER            -> ""

\* ----------------------------------------------------------------------- the stages
NewPacket == [dist |-> FALSE, m |-> 0, K |-> {}, bars |-> Empty, table |-> Empty, rows |-> <<>>]

RECURSIVE Fill(_, _, _, _, _, _, _)
Fill(kind, K, i, n, D, lim, dims) ==
    IF i = n THEN K ELSE Fill(kind, InsertInto(kind, K, D, i, lim, dims), i+1, n, D, lim, dims)

\* in: [kind, n, D, lim, dims]
Transform(c, in, p) ==
    CASE c = "distMatrix" -> [p EXCEPT !.dist = TRUE]
      [] c = "neighGraph" -> [p EXCEPT !.m = in.n, !.K = Fill(in.kind, {}, 0, in.n, in.D, in.lim, in.dims)]
      [] c = "rips"       -> [p EXCEPT !.K = ExpandTo(in.kind, p.K, p.m, in.dims)]
      [] c = "fast"       -> LET L == ExpandTo(in.kind, p.K, p.m, in.dims + 1)     \* expands on its own
                                 B == Barcode(p.m, L, in.D, in.lim, in.dims)
                             IN  [p EXCEPT !.K = L, !.bars = B, !.table = MSum(p.table, B)]
      [] c = "pairs"      -> [p EXCEPT !.bars = FullBarcode(p.m, p.K, in.D, in.lim, in.dims)]
      [] OTHER            -> p
Record(c, p) == [p EXCEPT !.rows = Append(@, <<RowName(c), p.m, Cardinality(p.K)>>)]
RunStage(c, ready, in, p) == IF ready THEN Record(c, Transform(c, in, p)) ELSE p

\* Which component may run on which packet: the graph needs the distances and an empty
\* complex, the expansion a graph, and a persistence stage a complex.
Legal(c, p) ==
    CASE c = "neighGraph" -> p.dist /\ p.m = 0
      [] c = "distMatrix" -> TRUE
      [] c = "upscale"    -> TRUE
      [] c = "rips"       -> p.m > 0 /\ p.bars = Empty
      [] c = "fast"       -> p.m > 0
      [] c = "pairs"      -> p.m > 0 /\ p.table = Empty       \* reads the whole complex: not after "fast"
      [] OTHER            -> FALSE
===============================================================================

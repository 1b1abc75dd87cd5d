--------------------------------- MODULE MC_Modes ---------------------------------
(* The way the program goes, for every configuration and number of points, and windows
   over every length of stream, step by step.                                        *)
EXTENDS Modes
CONSTANTS MaxLen, MaxW, MaxK
VARIABLES g, n, w, i, have, filled, reports, labels, counts, phase
vars == <<g, n, w, i, have, filled, reports, labels, counts, phase>>
Args == { <<"-m", m>> \o a \o b \o d \o e : m \in {"standard", "reduced", "upscaleBound", "stream", "sw", "slidingwindow", "fast", "naive", "naivewindow", "other"},
            a \in {<<>>, <<"-a", "1">>}, b \in {<<>>, <<"-u", "true">>, <<"--upscale", "false">>},
            d \in {<<>>, <<"-pre", "kmeans">>}, e \in {<<>>, <<"-p", "slidingwindow">>, <<"-p", "naivewindow">>, <<"-p", "rips">>} }
Init == /\ g \in { Config(a) : a \in Args } /\ n \in 0..MaxLen /\ w \in 1..MaxW
        /\ Way(g, n) \in {"usage", "standard", "reduced"} => n =< 1 /\ w = 1
        /\ Way(g, n) = "upscale" => n =< 4 /\ w =< MaxK
        /\ g.epsilon = "5"
        /\ i = 0 /\ have = 0 /\ filled = 0 /\ reports = {} /\ labels = <<>> /\ counts = <<>> /\ phase = "start"
Start == /\ phase = "start"
         /\ phase' = Way(g, n) /\ UNCHANGED <<g, n, w, i, have, filled, reports, labels, counts>>
\* windows: one point after the other; a full window stays full
Point == /\ phase \in {"sliding", "naive"} /\ i < n /\ i' = i + 1
         /\ have' = IF have < w THEN have + 1 ELSE have
         /\ filled' = IF filled = 0 /\ have' = w THEN i' ELSE filled
         /\ reports' = IF phase = "sliding" /\ i' % Report = 0 /\ i' > w THEN reports \cup {i'} ELSE reports
         /\ UNCHANGED <<g, n, w, labels, counts, phase>>
Stop == /\ phase \in {"sliding", "naive"} /\ i = n /\ phase' = "end"
        /\ reports' = IF phase = "sliding" /\ n % Report # 0 /\ filled > 0 THEN reports \cup {n} ELSE reports
        /\ UNCHANGED <<g, n, w, i, have, filled, labels, counts>>
Label == /\ phase = "upscale" /\ n =< 4 /\ w =< MaxK                \* w: number of clusters
         /\ labels' \in (IF Clusters(g) THEN [1..n -> 0..(w-1)] ELSE {<<>>})
         /\ counts' = Sizes(w, labels') /\ phase' = "end" /\ UNCHANGED <<g, n, w, i, have, filled, reports>>
Next == Start \/ Point \/ Stop \/ Label
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k-1)
Windows == phase = "end" /\ counts = <<>> =>
    /\ (filled = 0 <=> n < w) /\ (filled # 0 => filled = w)
    /\ Way(g, n) = "sliding" => reports = ReportPoints(w, n)
    /\ Way(g, n) = "naive" => reports = {}
    /\ \A r \in reports : r >= w
EveryPoint == phase = "end" /\ counts # <<>> => SumTo(counts, w) = Len(labels)
\* the window modes read the stream themselves and cluster nothing; the other pipelines need points
ModeRules == /\ g.mode \in {"sw", "slidingwindow"} /\ g.mpi # "1" /\ g.pipeline = "slidingwindow" /\ g.preprocessor = ""
                  => Way(g, n) = (IF g.upscale = "true" THEN "upscale" ELSE "sliding")
             /\ g.mpi = "1" => Way(g, n) \in {"usage", "upscale"}
             /\ g.mode = "upscaleBound" /\ g.upscale = "false" => g.pipeline # "distMatrix.neighGraph.rips.persistence.boundary.upscale"
             /\ Way(g, n) = "usage" => n = 0
Ends == <>(phase \in {"end", "usage", "reduced", "standard"} \/ (phase = "upscale" /\ (n > 4 \/ w > MaxK)))
===================================================================================

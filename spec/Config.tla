--------------------------------- MODULE Config ---------------------------------
(* From the argument list to the configuration.  Arguments are read in pairs of an option
   (one or two dashes and a name, long or short) and a value; then the short names are
   resolved, missing options get their default, and the mode fixes the pipeline.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Short == [mpi |-> "a", mode |-> "m", dimensions |-> "d", iterations |-> "r", pipeline |-> "p", inputFile |-> "i",
          outputFile |-> "o", epsilon |-> "e", lambda |-> "l", debug |-> "x", complexType |-> "c", clusters |-> "k",
          preprocessor |-> "pre", upscale |-> "u", twist |-> "t", collapse |-> "z"]
Default == [mpi |-> "0", mode |-> "standard", dimensions |-> "1", iterations |-> "250", pipeline |-> "",
            inputFile |-> "None", outputFile |-> "output.csv", epsilon |-> "5", lambda |-> ".25", debug |-> "0",
            complexType |-> "simplexTree", clusters |-> "20", preprocessor |-> "", upscale |-> "false",
            twist |-> "false", collapse |-> "false"]
Options == DOMAIN Short

\* --- one argument
Dashes(a) == IF Len(a) >= 2 /\ SubSeq(a, 1, 2) = "--" THEN 2 ELSE IF Len(a) >= 1 /\ SubSeq(a, 1, 1) = "-" THEN 1 ELSE 0
NameOf(a) == SubSeq(a, Dashes(a) + 1, Len(a))

\* --- the raw map: later occurrences of the same name replace earlier ones
PutPair(raw, a, v) == IF Dashes(a) = 0 THEN raw ELSE (NameOf(a) :> v) @@ raw

\* --- short names win over long names, then the default
Resolve(raw) == [o \in Options |-> IF Short[o] \in DOMAIN raw THEN raw[Short[o]]
                                   ELSE IF o \in DOMAIN raw THEN raw[o] ELSE Default[o]]
RECURSIVE RawOf(_, _)
RawOf(args, i) == IF i + 1 > Len(args) THEN << >>
                  ELSE RawOf(args, i + 2) @@ PutPair(<< >>, args[i], args[i+1])
Parse(args) == Resolve(RawOf(args, 1))

\* --- the mode table
Standard == "distMatrix.neighGraph.rips.fastPersistence"
Or(a, b) == IF a = "" THEN b ELSE a
Plan(g) ==
    IF g.mpi = "1" THEN [g EXCEPT !.pipeline = Standard, !.preprocessor = Or(@, "kmeans++"), !.upscale = "true"]
    ELSE IF g.pipeline # "" THEN g
    ELSE CASE g.mode = "standard" -> [g EXCEPT !.pipeline = Standard]
           [] g.mode = "reduced" -> [g EXCEPT !.pipeline = Standard, !.preprocessor = Or(@, "kmeans++"),
                                              !.upscale = "false", !.complexType = "simplexTree"]
           [] g.mode = "upscaleBound" -> [g EXCEPT !.pipeline = "distMatrix.neighGraph.rips.persistence.boundary.upscale",
                                              !.preprocessor = Or(@, "kmeans++"), !.upscale = "true"]
           [] g.mode = "stream" -> [g EXCEPT !.pipeline = Standard, !.preprocessor = Or(@, "streamingkmeans")]
           [] g.mode \in {"sw", "slidingwindow"} -> [g EXCEPT !.pipeline = "slidingwindow", !.preprocessor = "",
                                              !.upscale = "false", !.complexType = "simplexTree"]
           [] g.mode = "fast" -> [g EXCEPT !.pipeline = Standard, !.upscale = "false", !.complexType = "simplexTree"]
           [] g.mode \in {"naive", "naivewindow"} -> [g EXCEPT !.pipeline = "naivewindow", !.preprocessor = "",
                                              !.upscale = "false", !.complexType = "simplexTree"]
           [] OTHER -> g
================================================================================

-------------------------------- MODULE ModesTrace --------------------------------
(* Recorded runs of the program in its window, upscaling and density modes.  A run:
     args, eps, dim   as in ProgramTrace
     X                the points of the file, in halves
     P, M             density runs: the different points with their multiplicities, integers
     u                density runs: centres are recorded in units of 1/u
     ev               one "run" [exit, conf, out, L, parts, counts, points, centres]
   conf: the configuration it printed; L: labels left; parts, counts: printed by the
   upscaling mode (parts -1: not printed); points: of the window reports, in order.      *)
EXTENDS Modes, Json
CONSTANTS W, WNaive
Den == INSTANCE DenStream WITH Speed <- 20, MinPoints <- 20, Thr <- 2
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok
vars == <<c, l, ok>>
T == Traces[c]
E == T.ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
AsSet(q) == { q[i] : i \in 1..Len(q) }
LabelsOk(k, n) == Len(E.L) = n /\ \A i \in 1..n : E.L[i] \in 0..(k-1)
Quiet == E.parts = -1 /\ E.points = <<>>
Wrote(g, rows, bars) ==
    IF g.outputFile = "console" THEN E.out = <<>>
    ELSE /\ Len(E.out) = 1 /\ E.out[1].base = g.outputFile /\ E.out[1].both /\ E.out[1].heads
         /\ E.out[1].rows = rows /\ MOfSeq(E.out[1].b) = bars
UpscaleOk(g) ==
    LET k == T.num[g.clusters] IN
    /\ E.out = <<>> /\ E.points = <<>> /\ E.parts = k
    /\ IF Clusters(g) THEN LabelsOk(k, Len(T.X)) /\ E.counts = Sizes(k, E.L)
       ELSE E.L = <<>> /\ E.counts = Sizes(k, <<>>)
\* with debugging on the stage leaves the points it hands on under the next number
Extra(g) == IF T.debug[g.debug] THEN 1 ELSE 0
SlidingOk(g, lim, dims) ==
    LET n == Len(T.X)
        K == WindowComplex(W, T.X, lim, dims)
        at == SetToSortSeq(ReportPoints(W, n), LAMBDA a, b : a < b) IN
    /\ E.parts = -1 /\ E.L = <<>>
    /\ Wrote(g, SlidingRows(W, T.X, K), Empty)
    /\ Len(E.points) = Len(at) + Extra(g)
    /\ Extra(g) = 1 => E.points[Len(at) + 1] = IF Len(at) > 0 THEN E.points[Len(at)] ELSE FirstWindow(W, T.X)
    /\ \A i \in 1..Len(at) : /\ Len(E.points[i]) = W
                             /\ AsSet(E.points[i]) \subseteq { T.X[j] : j \in 1..at[i] }
                             /\ \A p \in AsSet(E.points[i]) :
                                  Cardinality({ j \in 1..W : E.points[i][j] = p }) =< Cardinality({ j \in 1..at[i] : T.X[j] = p })
    \* without a hundredth point beyond it the first full window is all there is to report
    /\ Len(at) > 0 /\ at[1] % Report # 0 => E.points[1] = FirstWindow(W, T.X)
\* the points handed on: all of a short file; the window at the last report point, or the first full one
NaiveOut(n) == LET hs == { i \in 1..n : i % Report = 0 /\ i > WNaive } IN
    IF n < WNaive THEN T.X ELSE LET e == IF hs = {} THEN WNaive ELSE Max(hs) IN SubSeq(T.X, e - WNaive + 1, e)
NaiveOk(g, lim, dims) == /\ E.parts = -1 /\ E.points = (IF Extra(g) = 1 THEN <<NaiveOut(Len(T.X))>> ELSE <<>>) /\ E.L = <<>>
                         /\ Wrote(g, NaiveRows(WNaive, T.X, WindowComplex(WNaive, T.X, lim, dims)), Empty)
\* a file of points that is used up by the first points of the density stream
DensityOk(g, lim, dims) ==
    LET S == Den!Start(T.P, T.M, T.num[g.epsilon])
        Cen == [i \in 1..Len(S.p) |-> [d \in 1..Len(S.p[i].ls) |-> (S.p[i].ls[d] * T.u) \div S.p[i].w]]
        Y == [i \in 1..Len(Cen) |-> [d \in 1..Len(Cen[i]) |-> 2 * Cen[i][d]]]
        p == Pass(g, Input(g, Y, lim * T.u * T.u, dims), [NewPacket EXCEPT !.rows = << <<"DenStream">> >>]) IN
    /\ Quiet /\ E.L = <<>>
    /\ MOfSeq(E.centres) = MOfSeq(Cen)
    /\ Wrote(g, p.rows, p.bars)
RunOk == LET g == Config(T.args)
             lim == T.eps[g.epsilon]
             dims == T.dim[g.dimensions]
             way == Way(g, Len(T.X)) IN
    /\ E.exit = 0 /\ \A o \in C!Options : o \in DOMAIN E.conf /\ E.conf[o] = g[o]
    /\ CASE way = "usage" -> Quiet /\ E.out = <<>> /\ E.L = <<>>
         [] way = "upscale" -> UpscaleOk(g)
         [] way = "sliding" -> SlidingOk(g, lim, dims)
         [] way = "naive" -> NaiveOk(g, lim, dims)
         [] way = "standard" -> Preprocessor(g.preprocessor) = "denStream" /\ DensityOk(g, lim, dims)
         [] OTHER -> FALSE
TraceNext == /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
             /\ ok' = CASE E.e = "run" -> RunOk [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

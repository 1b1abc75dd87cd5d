----------------------------- MODULE ProgramTrace ------------------------------
(* Recorded runs of the program in its standard mode.  A run:
     args           the argument list
     data           name of a file -> its points, in halves
     eps, dim       text of a limit -> (2 eps)^2, text of a dimension -> the integer
     ev             one "run" [exit, out], out a sequence of [base, both, heads, rows, b]
   for every output name used, whether or not the files are there.                   *)
EXTENDS Program, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok
vars == <<c, l, ok>>
T == Traces[c]
E == T.ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE

RunOk ==
    LET g == Config(T.args)
        X == IF g.inputFile \in DOMAIN T.data THEN T.data[g.inputFile] ELSE <<>>
        lim == T.eps[g.epsilon]
        dims == T.dim[g.dimensions]
        f == StandardRun(g, X, lim, dims)
    IN  /\ E.exit = 0
        /\ IF X = <<>> \/ g.upscale = "true" \/ ~f.written THEN E.out = <<>>
           ELSE /\ LegalFrom(g, Input(g, X, lim, dims), NewPacket, Split(g.pipeline))
                /\ Len(E.out) = 1
                /\ E.out[1].base = g.outputFile /\ E.out[1].both /\ E.out[1].heads
                /\ E.out[1].rows = f.rows
                /\ MOfSeq(E.out[1].b) = f.bars
TraceNext == /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
             /\ ok' = CASE E.e = "run" -> RunOk [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

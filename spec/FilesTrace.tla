------------------------------- MODULE FilesTrace -------------------------------
(* Recorded sequences of stages with the files and the log found after each of them.  *)
EXTENDS Files, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, p, comp, ready, ok
vars == <<c, l, p, comp, ready, ok>>
T == Traces[c]
E == T.ev[l]
In == [kind |-> T.kind, n |-> T.n, D |-> T.D, lim |-> T.lim, dims |-> T.dims]
AsSet(q) == { q[i] : i \in 1..Len(q) }

TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ p = NewPacket /\ comp = "none" /\ ready = FALSE
Built(x) == comp' = x /\ ready' = FALSE /\ UNCHANGED <<ok, p>>
Configured == ready' = (ready \/ Ready(comp, AsSet(E.opts))) /\ UNCHANGED <<ok, p, comp>>

Names == { E.files[i][1] : i \in 1..Len(E.files) }
File(x) == LET i == CHOOSE i \in 1..Len(E.files) : E.files[i][1] = x IN E.files[i][2]
Holds(x, q) ==
    CASE x = "DistMatrix_output.csv" -> File(x) = T.D
      [] x \in {"neighGraph_output.csv", "ripsPipe_output.csv"} ->
           LET S == Shown(comp, T.kind, q.K) IN
           /\ Len(File(x)) = Cardinality(S)
           /\ { <<AsSet(y[1]), y[2]>> : y \in AsSet(File(x)) } = { <<s, Diam(T.D, s)>> : s \in S }
      [] x \in {"FastPersistence_bettis_output.csv", "PersistencePairs_bettis_output.csv"} -> MOfSeq(File(x)) = q.bars
      [] x = "tArray.csv" -> TRUE
      [] x = "Upscale_output.csv" -> File(x) = E.out
      [] x = RowName(comp) \o "_centroid_output.csv" -> File(x) = E.out
      [] x = RowName(comp) \o "_label_output.csv" -> File(x) = E.lab
      [] OTHER -> FALSE
Run == LET q == IF Pre(comp) THEN (IF ready THEN [p EXCEPT !.rows = Append(@, <<RowName(comp)>>)] ELSE p)
                ELSE RunStage(comp, ready, In, p) IN
    /\ p' = q /\ UNCHANGED <<comp, ready>>
    /\ ok' = /\ Names = FileNames(comp, ready, T.dbg, T.kind)
             /\ \A x \in Names : Holds(x, q)
             /\ E.log = Logged(q.rows)
             /\ ~T.dbg => ~E.debuglines

TraceNext ==
    /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
    /\ CASE E.e = "storage" -> UNCHANGED <<p, comp, ready, ok>>
         [] E.e = "build"   -> Built(Component(E.name, T.kind))
         [] E.e = "pbuild"  -> Built(Preprocessor(E.name))
         [] E.e \in {"config", "pconfig"} -> Configured
         [] E.e \in {"run", "prun"} -> Run
         [] OTHER           -> ok' = FALSE /\ UNCHANGED <<p, comp, ready>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

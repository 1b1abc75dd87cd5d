------------------------------ MODULE StagesTrace ------------------------------
(* Recorded sequences of factory, configuration and run calls against Stages.tla.
   A run: [kind, n, D, lim, dims, distinct, ev].                                     *)
EXTENDS Stages, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, p, comp, ready, ran, ok
vars == <<c, l, p, comp, ready, ran, ok>>
T == Traces[c]
E == T.ev[l]
In == [kind |-> T.kind, n |-> T.n, D |-> T.D, lim |-> T.lim, dims |-> T.dims]
AsSet(q) == { q[i] : i \in 1..Len(q) }

TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ p = NewPacket /\ comp = "none" /\ ready = FALSE /\ ran = 0

Built(x) == comp' = x /\ ready' = FALSE /\ ok' = (E.got = x) /\ UNCHANGED <<p, ran>>
Configured == LET S == AsSet(E.opts) IN
    ready' = (ready \/ Ready(comp, S)) /\ ok' = (E.a = Accepts(comp, S)) /\ UNCHANGED <<p, comp, ran>>

Weights == {0, T.lim} \cup { w \in { T.D[i][j] : i, j \in 1..T.n } \ {0} : w < T.lim }
           \cup (IF \E i, j \in 1..T.n : i < j /\ T.D[i][j] = 0 THEN {0} ELSE {})
Matches(q) ==
    /\ E.data /\ E.full
    /\ E.dist = (IF q.dist THEN T.D ELSE <<>>)
    /\ AsSet(E.w) = (IF q.dist THEN Weights ELSE {}) /\ Len(E.w) = Cardinality(AsSet(E.w))
    /\ E.count = Cardinality(q.K) /\ E.vertices = q.m
    /\ Len(E.s) = Cardinality(q.K)
    /\ { <<AsSet(x[1]), x[2]>> : x \in AsSet(E.s) } = ListAnswer(q.K, T.D)
    /\ MOfSeq(E.b) = q.bars /\ MOfSeq(E.t) = q.table
    /\ E.rows = q.rows
Run == /\ p' = RunStage(comp, ready, In, p) /\ ok' = Matches(p') /\ UNCHANGED <<comp, ready, ran>>

\* A preprocessor that runs replaces the points by at most as many and adds a row.
PreRun == /\ p' = (IF ready THEN [p EXCEPT !.rows = Append(@, <<RowName(comp)>>)] ELSE p)
          /\ ran' = IF ready THEN ran + 1 ELSE ran
          /\ ok' = ( /\ E.full /\ E.rows = p'.rows /\ E.count = 0
                     /\ IF ran' = 0 THEN E.data /\ E.labels = 0
                        ELSE comp = "kmeans" => /\ E.labels = T.n
                                                /\ E.points = (IF T.distinct < 2 THEN T.distinct ELSE 2) )
          /\ UNCHANGED <<comp, ready>>

TraceNext ==
    /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
    /\ CASE E.e = "storage" -> ok' = (E.got = StorageOf(E.name)) /\ UNCHANGED <<p, comp, ready, ran>>
         [] E.e = "build"   -> Built(Component(E.name, T.kind))
         [] E.e = "pbuild"  -> Built(Preprocessor(E.name))
         [] E.e \in {"config", "pconfig"} -> Configured
         [] E.e = "run"     -> Run
         [] E.e = "prun"    -> PreRun
         [] OTHER           -> ok' = FALSE /\ UNCHANGED <<p, comp, ready, ran>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

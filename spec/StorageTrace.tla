----------------------------- MODULE StorageTrace ------------------------------
(* Histories of operations on one real storage object:
     [kind, lim, dim, ev], events matrix, insert, expand, clear and the queries.     *)
EXTENDS Storage, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, D, m, K, ok
vars == <<c, l, D, m, K, ok>>
T == Traces[c]
E == T.ev[l]
AsSet(q) == { q[i] : i \in 1..Len(q) }
Entries(q) == { <<AsSet(q[i][1]), q[i][2]>> : i \in 1..Len(q) }

TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ D = <<>> /\ m = 0 /\ K = {}

Matrix == E.e = "matrix" /\ D' = E.D /\ UNCHANGED <<m, K>> /\ ok' = TRUE
Insert == /\ E.e = "insert" /\ m' = m + 1 /\ UNCHANGED D /\ ok' = TRUE
          /\ K' = InsertInto(T.kind, K, D, m, T.lim, T.dim)
Expand == E.e = "expand" /\ K' = ExpandTo(T.kind, K, m, E.d) /\ UNCHANGED <<D, m>> /\ ok' = TRUE
Clear  == E.e = "clear" /\ m' = 0 /\ K' = {} /\ UNCHANGED D /\ ok' = TRUE
Answer == /\ UNCHANGED <<D, m, K>>
          /\ \/ E.e = "list" /\ ok' = ( /\ Len(E.s) = Cardinality(K)
                                        /\ Entries(E.s) = ListAnswer(K, D)
                                        /\ E.sorted /\ E.pure
                                        /\ E.count = Cardinality(K) /\ E.vertices = m )
             \/ E.e = "count" /\ ok' = (E.count = Cardinality(K) /\ E.vertices = m)
             \/ E.e = "size" /\ ok' = LET X == SizeAnswer(K, D, E.size, E.flt)
                                      IN  Len(E.s) = Cardinality(X) /\ { AsSet(E.s[i]) : i \in 1..Len(E.s) } = X
             \/ E.e = "find" /\ ok' = (E.found = (AsSet(E.s) \in K))
             \/ E.e = "crash" /\ ok' = FALSE
TraceNext == ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c /\ (Matrix \/ Insert \/ Expand \/ Clear \/ Answer)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
===============================================================================

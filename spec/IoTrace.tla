-------------------------------- MODULE IoTrace ---------------------------------
(* Recorded reads and writes of the real code.
   ev:  file(toks)           a file with these tokens now exists
        matfile(r, k, vals)  a matrix file
        csv / stream / mat   what a reader returned
        missing              what the readers did with a file that does not exist
        write(kind, name, rows | header, text)   a writer was called
        content(name, toks | text)               what the file contains afterwards
        readback(name, rows)                     what the reader returned for it      *)
EXTENDS Io
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, file, disk, ok
vars == <<c, l, file, disk, ok>>
T == Traces[c]
E == T.ev[l]
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ file = [t |-> "none"] /\ disk = [x \in {} |-> 0]
Put(n, v) == [x \in DOMAIN disk \cup {n} |-> IF x = n THEN v ELSE disk[x]]

\* the rows a numeric file denotes
Denotes(v) == v.rows
Step ==
    \/ E.e = "file" /\ Assert(WellFormed(E.toks), "ill-formed input") /\ file' = [t |-> "csv", rows |-> Rows(E.toks)] /\ UNCHANGED disk /\ ok' = TRUE
    \/ E.e = "matfile" /\ file' = [t |-> "mat", rows |-> MatShape(E.vals, E.r, E.k)] /\ UNCHANGED disk /\ ok' = TRUE
    \/ E.e \in {"csv", "mat"} /\ UNCHANGED <<file, disk>> /\ ok' = (E.rows = file.rows)
    \/ E.e = "stream" /\ UNCHANGED <<file, disk>> /\ ok' = (E.init /\ E.rows = file.rows /\ E.ended)
    \/ E.e = "missing" /\ UNCHANGED <<file, disk>> /\ ok' = (E.csv = <<>> /\ E.mat = <<>> /\ E.init = FALSE /\ E.read = FALSE)
    \/ E.e = "write" /\ UNCHANGED file /\ ok' = E.ret
       /\ disk' = Put(E.file, IF E.kind = "text" THEN [kind |-> "text", text |-> E.header \o E.text]
                              ELSE [kind |-> E.kind, rows |-> E.rows, header |-> E.header])
    \/ E.e = "content" /\ UNCHANGED <<file, disk>>
       /\ ok' = LET v == disk[E.file] IN
                CASE v.kind = "text" -> E.text = v.text
                  [] v.kind = "csv" -> E.header = v.header /\ WellFormed(E.toks) /\ Rows(E.toks) = v.rows
                  [] v.kind = "mat" ->
                       LET k == IF v.rows = <<>> THEN 0 ELSE Len(v.rows[1]) IN
                       E.r = Len(v.rows) /\ E.k = k /\ E.vals = FlattenSeq(v.rows)
    \/ E.e = "readback" /\ UNCHANGED <<file, disk>> /\ ok' = (E.rows = disk[E.file].rows)
    \/ E.e = "crash" /\ UNCHANGED <<file, disk>> /\ ok' = FALSE
TraceNext == ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
===============================================================================

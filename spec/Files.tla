---------------------------------- MODULE Files ---------------------------------
(* The files a run leaves in its output folder: what each stage produced when debugging
   is on, nothing when it is off; a preprocessor always leaves its points and labels.
   The log has one line per stage that ran.                                           *)
EXTENDS Stages

Pre(c) == c \in {"kmeans", "streamKM", "denStream"}
FileNames(c, ready, dbg, kind) ==
    IF ~ready THEN {}
    ELSE IF Pre(c) THEN { RowName(c) \o "_centroid_output.csv", RowName(c) \o "_label_output.csv" }
    ELSE IF ~dbg THEN {}
    ELSE CASE c \in {"fast", "pairs"} -> { RowName(c) \o "_bettis_output.csv", "tArray.csv" }
           [] c = "rips" -> IF kind = "simplexArrayList" THEN {"ripsPipe_output.csv"} ELSE {}
           [] OTHER -> { RowName(c) \o "_output.csv" }

\* the part of the complex the graph and the expansion stage write down
Shown(c, kind, K) == IF c = "neighGraph" /\ kind = "simplexArrayList" THEN OfSize(K, 2) ELSE K
\* the log: names of the stages in p.rows that are no preprocessors
Logged(rows) == LET s == SelectSeq(rows, LAMBDA r : Len(r) = 3) IN [i \in 1..Len(s) |-> s[i][1]]

\* ---- the output folder over a whole run: a later stage of the same name replaces the file
Leave(dir, names, v) == [f \in DOMAIN dir \cup names |-> IF f \in names THEN v ELSE dir[f]]
================================================================================

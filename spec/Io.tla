----------------------------------- MODULE Io -----------------------------------
(* Reading and writing tables of numbers.  A file is a sequence of tokens: a number (an
   integer identifying its value), or one of the strings "," " " "\r" "\n".           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

Comma == 10001
Blank == 10002
CR    == 10003
LF    == 10004
IsNum(t) == t < 10000
NoNum == -1

\* ----------------------------------------------------------- definition of the rows
\* the numbers of one line (a sequence of tokens without LF)
Numbers(line) == SelectSeq(line, IsNum)
RECURSIVE Lines(_, _, _)
Lines(toks, i, cur) ==
    IF i > Len(toks) THEN <<cur>>
    ELSE IF toks[i] = LF THEN <<cur>> \o Lines(toks, i+1, <<>>)
    ELSE Lines(toks, i+1, Append(cur, toks[i]))
Rows(toks) ==
    LET L == Lines(toks, 1, <<>>)
        N == [i \in 1..Len(L) |-> Numbers(L[i])]
    IN  SelectSeq(N, LAMBDA r : Len(r) > 0)

\* well-formed: numbers of a line are separated by exactly one comma, a comma follows a
\* number, a carriage return only stands at the end of its line
RECURSIVE OkLine(_, _, _)
OkLine(line, i, st) ==      \* st: "start" (a number may come) "num" (comma or end) "comma" "cr"
    IF i > Len(line) THEN TRUE
    ELSE LET t == line[i] IN
         CASE t = Blank -> OkLine(line, i+1, IF st = "num" THEN "num" ELSE st)
           [] t = CR -> OkLine(line, i+1, "cr")
           [] t = Comma -> st = "num" /\ OkLine(line, i+1, "comma")
           [] OTHER -> st \in {"start", "comma"} /\ OkLine(line, i+1, "num")
WellFormed(toks) == LET L == Lines(toks, 1, <<>>) IN \A i \in 1..Len(L) : OkLine(L[i], 1, "start")

\* ------------------------------------------------------------- the reader, stepwise
\* parse state: [row, num, rows]
Fresh == [row |-> <<>>, num |-> NoNum, rows |-> <<>>]
PushNum(s) == IF s.num = NoNum THEN s ELSE [s EXCEPT !.row = Append(@, s.num), !.num = NoNum]
EndLine(s) == LET p == PushNum(s) IN
              IF p.row = <<>> THEN p ELSE [p EXCEPT !.rows = Append(@, p.row), !.row = <<>>]
Eat(s, t) == CASE t = LF -> EndLine(s)
               [] t = Comma -> PushNum(s)
               [] t \in {Blank, CR} -> s
               [] OTHER -> [s EXCEPT !.num = t]

\* ------------------------------------------------------------------- matrix files
\* header: number of rows and columns, then the values one per line
MatShape(vals, r, k) == [i \in 1..r |-> [j \in 1..k |-> vals[(i-1) * k + j]]]

\* ------------------------------------------------------------------------- writers
CsvText(rows) == FlattenSeq([i \in 1..Len(rows) |-> FlattenSeq([j \in 1..Len(rows[i]) |-> <<rows[i][j], Comma>>]) \o <<LF>>])
===============================================================================

--------------------------------- MODULE MC_Io ----------------------------------
(* Every file of at most MaxLen tokens: the stepwise reader loses nothing, invents
   nothing and splits rows as defined; reading what was written returns it.         *)
EXTENDS Io
CONSTANTS MaxLen
VARIABLES toks, s, done
vars == <<toks, s, done>>
Init == toks = <<>> /\ s = Fresh /\ done = FALSE
Feed(t) == ~done /\ Len(toks) < MaxLen /\ WellFormed(Append(toks, t))
           /\ toks' = Append(toks, t) /\ s' = Eat(s, t) /\ done' = FALSE
Eof == ~done /\ done' = TRUE /\ s' = EndLine(s) /\ UNCHANGED toks
Next == Eof \/ \E t \in {1, 2, Comma, Blank, CR, LF} : Feed(t)
Spec == Init /\ [][Next]_vars
Pending == IF s.num = NoNum THEN <<>> ELSE <<s.num>>
NothingLost == FlattenSeq(s.rows) \o s.row \o Pending = Numbers(toks)
NoEmptyRow == \A i \in 1..Len(s.rows) : s.rows[i] # <<>>
RowsAreLines == done => s.rows = Rows(toks)
RoundTrip == done => /\ Rows(CsvText(s.rows)) = s.rows /\ WellFormed(CsvText(s.rows))
                     /\ FoldLeft(Eat, Fresh, CsvText(s.rows)).rows = s.rows
Emit == IF done /\ Len(toks) > 0 THEN PrintT("@@" \o ToJson([t |-> toks])) ELSE TRUE
===============================================================================

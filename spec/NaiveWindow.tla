------------------------------- MODULE NaiveWindow -------------------------------
(* The plain window: the last W points of the stream.  The first full window becomes the
   complex; the points are handed on then and after every Report-th point.             *)
EXTENDS Naturals, Sequences
CONSTANTS W, Report
Start == [win |-> << >>, n |-> 0, first |-> << >>, out |-> << >>]
Slide(w, x) == IF Len(w) < W THEN Append(w, x) ELSE Append(Tail(w), x)
Take(st, x) == LET w == Slide(st.win, x) n == st.n + 1
                   filled == Len(w) = W /\ st.first = << >>
               IN  [win |-> w, n |-> n, first |-> IF filled THEN w ELSE st.first,
                    out |-> IF filled \/ (n % Report = 0 /\ n > W) THEN w ELSE st.out]
================================================================================

----------------------------- MODULE DenStreamTrace ------------------------------
(* [P, M, eps, B, stream, ev]: "init" and "feed", each with the centres [C] (times 1000)
   and the number k of points of the stream for which they came; S: the states it may be in.
   at: points fed so far.                                                               *)
EXTENDS DenStream, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES c, l, ok, S, at
vars == <<c, l, ok, S, at>>
T == Traces[c]
E == T.ev[l]
Fits(m, x) == Len(x) = Len(m.ls) /\ \A d \in 1..Len(x) : Abs(x[d] * m.w - m.ls[d] * 1000) =< 2 * m.w
Shows(st, C) == /\ Len(C) = Len(st.p)
                /\ \A i \in 1..Len(C) : \E j \in 1..Len(C) : Fits(st.p[j], C[i])
                /\ \A j \in 1..Len(C) : \E i \in 1..Len(C) : Fits(st.p[j], C[i])
TraceInit == c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE /\ S = {} /\ at = 0
RECURSIVE FeedTo(_, _, _)
FeedTo(A, i, k) == IF i = k THEN A ELSE FeedTo(UNION { Feed(st, T.stream[i+1], T.eps, T.B) : st \in A }, i+1, k)
Possible == CASE E.e = "init" -> { Start(T.P, T.M, T.eps) }
              [] E.e = "feed" -> FeedTo(S, at, E.k)
              [] OTHER -> {}
TraceNext == /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
             /\ S' = (IF E.e \in {"init", "feed"} THEN { st \in Possible : Shows(st, E.C) } ELSE {})
             /\ at' = (IF E.e \in {"init", "feed"} THEN E.k ELSE at)
             /\ ok' = (S' # {} /\ E.files)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
================================================================================

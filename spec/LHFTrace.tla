------------------------------- MODULE LHFTrace -------------------------------
(* Validation of recorded runs of the real code against the pipeline specification.
   traces.ndjson holds one recorded run per line:
     [n, D, lim, closed, dims, ev]
   where ev is the sequence of observations made at the public interface.  Every
   behaviour of this module follows one run, one observation per step; `ok' becomes
   FALSE when an observation is not what the specification allows.                  *)
EXTENDS Persistence, Json

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLES c, l, m, K, ok
vars == <<c, l, m, K, ok>>

T == Traces[c]
E == T.ev[l]

Has(r, f) == f \in DOMAIN r
AsSet(q) == { q[i] : i \in 1..Len(q) }
NoDup(q) == Cardinality(AsSet(q)) = Len(q)

\* entries [[v1, v2, ...], w]
Entries(q) == { <<AsSet(q[i][1]), q[i][2]>> : i \in 1..Len(q) }
WithDiam(S) == { <<s, Diam(T.D, s)>> : s \in S }

TraceInit ==
    /\ c \in 1..Len(Traces) /\ l = 1 /\ ok = TRUE
    /\ m = 0 /\ K = {}

\* k points were inserted (and, in the list, expanded to the configured dimension)
Inserted ==
    /\ m' = E.m
    /\ K' = BuildRips(E.m, T.D, T.lim, T.closed, E.top)
    /\ ok' = TRUE

\* the complex as listed by the storage: each simplex once, right weight, ordered
Listed ==
    /\ UNCHANGED <<m, K>>
    /\ ok' = ( /\ Len(E.s) = Cardinality(K)
               /\ Entries(E.s) = WithDiam(K)
               /\ E.sorted /\ E.pure
               /\ E.count = Cardinality(K)
               /\ E.vertices = m )

Counted ==
    /\ UNCHANGED <<m, K>>
    /\ ok' = (E.count = Cardinality(K) /\ E.vertices = m)

\* the simplices of one size, filtered by a weight (flt < 0: unfiltered)
SizeListed ==
    /\ UNCHANGED <<m, K>>
    /\ ok' = LET X == { s \in OfSize(K, E.size) : E.flt < 0 \/ Diam(T.D, s) =< E.flt }
             IN  Len(E.s) = Cardinality(X) /\ { AsSet(E.s[i]) : i \in 1..Len(E.s) } = X

Found ==
    /\ UNCHANGED <<m, K>>
    /\ ok' = (E.found = (AsSet(E.s) \in K))

BarsOf(q) == MOfSeq([i \in 1..Len(q) |-> <<q[i][1], q[i][2], q[i][3]>>])
OfDims(B, S) == [x \in { y \in DOMAIN B : y[1] \in S } |-> B[x]]

\* the barcode of the current complex, restricted to the dimensions of interest
Bars ==
    /\ UNCHANGED <<m, K>>
    /\ ok' = LET S == AsSet(E.dims)
                 B == IF E.full THEN FullBarcode(m, K, T.D, T.lim, T.dims)
                                ELSE Barcode(m, K, T.D, T.lim, T.dims)
             IN  OfDims(BarsOf(E.b), S) = OfDims(B, S)
                 /\ \A i \in 1..Len(E.b) : E.b[i][1] \in 0..(T.dims - 1)

\* the interval table: entries [dim, birth, death, points]
Table ==
    /\ UNCHANGED <<m, K>>
    /\ ok' =
        /\ MOfSeq([i \in 1..Len(E.t) |-> <<E.t[i][1], E.t[i][2], E.t[i][3]>>])
             = Barcode(m, K, T.D, T.lim, T.dims)
        /\ \A i \in 1..Len(E.t) :
             LET x == E.t[i]
                 P == AsSet(x[4]) IN
             /\ P \subseteq 0..(m-1)
             /\ x[1] = 0 => \/ P = {} /\ x[3] = T.lim
                            \/ \E s \in OfSize(K, 2) : P \subseteq s /\ P # {} /\ Diam(T.D, s) = x[3]
             /\ x[1] > 0 => \E s \in OfSize(K, x[1] + 1) : s \subseteq P /\ Diam(T.D, s) = x[2]

Cleared == m' = 0 /\ K' = {} /\ ok' = TRUE

Crash == UNCHANGED <<m, K>> /\ ok' = FALSE

TraceNext ==
    /\ ok /\ l =< Len(T.ev) /\ l' = l + 1 /\ c' = c
    /\ \/ E.e = "insert" /\ Inserted
       \/ E.e = "list" /\ Listed
       \/ E.e = "count" /\ Counted
       \/ E.e = "size" /\ SizeListed
       \/ E.e = "find" /\ Found
       \/ E.e = "bars" /\ Bars
       \/ E.e = "table" /\ Table
       \/ E.e = "clear" /\ Cleared
       \/ E.e = "crash" /\ Crash

TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == ok
===============================================================================

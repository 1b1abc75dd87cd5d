--------------------------------- MODULE LHF ----------------------------------
(* The standard pipeline of LHF as a state machine: the distance matrix is given,
   points are inserted one by one into a storage (neighGraph), the complex is
   complete up to the configured dimension (rips), and the persistence stage sweeps
   the edges (Kruskal) and then reduces the boundary matrix of every dimension, one
   column per step.

   The state holds exactly what the implementation holds between two of these steps.  *)
EXTENDS Persistence, Json

CONSTANTS Inputs        \* a set of records [n, D, lim, closed, dims]

VARIABLES
    inp,     \* the chosen input
    stage,   \* "insert" | "sweep" | "reduce" | "done"
    m,       \* number of points inserted so far
    K,       \* stored simplices
    comp,    \* connected components swept so far
    pos,     \* position in the edge / column sequence of the current stage
    d,       \* dimension being reduced (its columns are the (d+1)-simplices)
    red,     \* reduction state of the current dimension
    neg,     \* positions of the simplices of dimension d known to be negative
    srt,     \* sorted simplices by dimension, fixed when the sweep starts
    bars     \* bars emitted so far (a multiset)

vars == <<inp, stage, m, K, comp, pos, d, red, neg, srt, bars>>

NoRed == [R |-> [x \in {} |-> {}], pairs |-> {}]

Init ==
    /\ inp \in Inputs
    /\ stage = "insert" /\ m = 0 /\ K = {}
    /\ comp = {} /\ pos = 1 /\ d = 0 /\ red = NoRed /\ neg = {} /\ srt = <<>>
    /\ bars = Empty

InsertPoint ==
    /\ stage = "insert" /\ m < inp.n
    /\ K' = K \cup NewSimplices(K, inp.D, m, inp.lim, inp.closed, inp.dims)
    /\ m' = m + 1
    /\ UNCHANGED <<inp, stage, comp, pos, d, red, neg, srt, bars>>

StartSweep ==
    /\ stage = "insert" /\ m = inp.n
    /\ stage' = "sweep" /\ pos' = 1
    /\ comp' = { {v} : v \in 0..(inp.n - 1) }
    /\ srt' = SortedByDim(K, inp.D, inp.dims + 1)
    /\ UNCHANGED <<inp, m, K, d, red, neg, bars>>

\* The next edge joins two components: one component dies.
Merge ==
    /\ stage = "sweep" /\ pos =< Len(srt[2])
    /\ LET e == srt[2][pos]
           hit == { c \in comp : c \cap e[3] # {} }
       IN  /\ Cardinality(hit) = 2
           /\ comp' = (comp \ hit) \cup {UNION hit}
           /\ bars' = MAdd(bars, <<0, 0, e[1]>>)
    /\ neg' = neg \cup {pos}
    /\ pos' = pos + 1
    /\ UNCHANGED <<inp, stage, m, K, d, red, srt>>

\* The next edge closes a loop.
Skip ==
    /\ stage = "sweep" /\ pos =< Len(srt[2])
    /\ \E c \in comp : srt[2][pos][3] \subseteq c
    /\ pos' = pos + 1
    /\ UNCHANGED <<inp, stage, m, K, comp, d, red, neg, srt, bars>>

EndSweep ==
    /\ stage = "sweep" /\ pos > Len(srt[2])
    /\ bars' = MAddN(bars, <<0, 0, inp.lim>>, Cardinality(comp))
    /\ stage' = IF inp.dims > 1 THEN "reduce" ELSE "done"
    /\ d' = 1 /\ pos' = 1 /\ red' = NoRed
    /\ UNCHANGED <<inp, m, K, comp, neg, srt>>

\* One column of the boundary matrix; the rows in neg are cleared.
Column(j) == { i \in 1..Len(srt[d+1]) : i \notin neg /\ srt[d+1][i][3] \subseteq srt[d+2][j][3] }

ReduceColumn ==
    /\ stage = "reduce" /\ pos =< Len(srt[d+2])
    /\ LET c == ReduceCol(Column(pos), red.R) IN
       IF c = {} THEN UNCHANGED <<red, bars>>
       ELSE /\ red' = [R |-> red.R @@ (Max(c) :> c), pairs |-> red.pairs \cup {<<Max(c), pos>>}]
            /\ bars' = IF srt[d+1][Max(c)][1] = srt[d+2][pos][1] THEN bars
                       ELSE MAdd(bars, <<d, srt[d+1][Max(c)][1], srt[d+2][pos][1]>>)
    /\ pos' = pos + 1
    /\ UNCHANGED <<inp, stage, m, K, comp, d, neg, srt>>

NextDim ==
    /\ stage = "reduce" /\ pos > Len(srt[d+2])
    /\ neg' = { p[2] : p \in red.pairs }
    /\ red' = NoRed /\ pos' = 1 /\ d' = d + 1
    /\ stage' = IF d + 1 < inp.dims THEN "reduce" ELSE "done"
    /\ UNCHANGED <<inp, m, K, comp, srt, bars>>

Next == InsertPoint \/ StartSweep \/ Merge \/ Skip \/ EndSweep \/ ReduceColumn \/ NextDim

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------------- properties
\* The storage holds exactly the Vietoris-Rips complex of the points inserted so far.
ComplexExact == K = Rips(m, inp.D, inp.lim, inp.closed, inp.dims)
FaceClosed == \A s \in K : \A f \in Facets(s) : f = {} \/ f \in K

\* The swept components are the connected components of the swept edges.
ComponentsPartition ==
    stage # "insert" =>
      /\ UNION comp = 0..(inp.n - 1)
      /\ \A a, b \in comp : a = b \/ a \cap b = {}
NeverSplit == [][stage = "sweep" => \A c \in comp : \E c2 \in comp' : c \subseteq c2]_vars

\* Euler / counting: one bar per vertex in dimension 0 in the end.
H0Count == stage \in {"reduce", "done"} =>
    FoldSet(LAMBDA x, s : IF x[1] = 0 THEN s + bars[x] ELSE s, 0, DOMAIN bars) = inp.n

BarsSound == \A x \in DOMAIN bars : x[2] =< x[3] /\ x[1] \in 0..(inp.dims - 1)

\* A reduced column is owned by its youngest row and is never owned twice.
PivotsDistinct == \A p, q \in red.pairs : p # q => p[1] # q[1] /\ p[2] # q[2]

\* The stepwise result is the operator used for trace validation ...
ResultIsOperator ==
    stage = "done" => bars = Barcode(inp.n, K, inp.D, inp.lim, inp.dims)

Weights == {0} \cup { Diam(inp.D, s) : s \in K }
\* ... and it is the persistent homology of the filtration: for all thresholds a =< b the
\* number of bars alive over [a,b] is the rank of H_d(K_a) -> H_d(K_b).
ResultIsPersistentHomology ==
    stage = "done" =>
      \A a \in Weights, b \in Weights : a =< b =>
        \A dim \in 0..(inp.dims - 1) : (dim = 0 => b < inp.lim) =>
          LET top == Max(Weights)
              \* a class of dimension >= 1 alive at the largest weight is not reported
              ess == IF dim = 0 THEN 0 ELSE PersistentBetti(K, inp.D, dim, a, top)
              kk == Rips(inp.n, inp.D, inp.lim, inp.closed, inp.dims)
          IN  Alive(bars, dim, a, b) + ess = PersistentBetti(kk, inp.D, dim, a, b)

\* The classes reported as surviving are those of the complete complex.
SurvivorsAreRanks ==
    stage = "done" =>
      \A dim \in 1..(inp.dims - 1) :
        LET top == Max(Weights)
            E == EssentialBars(srt, 1, inp.dims, { i \in 1..Len(srt[2]) : srt[2][i][2] \in Kruskal(inp.n, srt[2]).neg }, inp.lim, Empty)
        IN  \A a \in Weights :
              FoldSet(LAMBDA x, s : IF x[1] = dim /\ x[2] =< a THEN s + E[x] ELSE s, 0, DOMAIN E)
                = PersistentBetti(K, inp.D, dim, a, top)

Terminates == <>(stage = "done")

\* ----------------------------------------------------------- behaviours for replay
MSeq(B) == FoldSet(LAMBDA x, s : s \o [i \in 1..B[x] |-> x], <<>>, DOMAIN B)
EmitC ==     \* used as a constraint: evaluated for every new state and always TRUE
  IF stage # "done" THEN TRUE ELSE
    PrintT("@@" \o ToJson([n |-> inp.n, D |-> inp.D, lim |-> inp.lim, closed |-> inp.closed,
                           dims |-> inp.dims, simplices |-> K, bars |-> MSeq(bars)]))

===============================================================================

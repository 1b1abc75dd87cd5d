-------------------------------- MODULE MC_LHF --------------------------------
(* Exhaustive instances of LHF.tla. *)
EXTENDS LHF

CONSTANTS N, MaxW, Dims, Lims, Closed

Pairs == { p \in (0..(N-1)) \X (0..(N-1)) : p[1] < p[2] }
MatrixOf(f) == [i \in 1..N |-> [j \in 1..N |-> IF i < j THEN f[<<i-1, j-1>>] ELSE 0]]

\* all weight matrices over 1..MaxW
AllInputs == { [n |-> N, D |-> MatrixOf(f), lim |-> l, closed |-> c, dims |-> k] :
                  f \in [Pairs -> 1..MaxW], l \in Lims, c \in Closed, k \in Dims }

\* the octahedron family: three long diagonals, all other weights in {1,2}
OctaFree == { p \in Pairs : p[1] + p[2] # 5 }
OctaInputs == { [n |-> N, D |-> MatrixOf([p \in Pairs |-> IF p \in DOMAIN f THEN f[p] ELSE 3]),
                 lim |-> 5, closed |-> FALSE, dims |-> 3] : f \in [OctaFree -> 1..2] }
OctaSmall == { [n |-> N, D |-> MatrixOf([p \in Pairs |-> IF p \in DOMAIN f THEN f[p]
                                       ELSE IF p[1] + p[2] # 5 THEN 1 ELSE 3 + (p[1] % 2)]),
                 lim |-> 5, closed |-> FALSE, dims |-> 3] :
                 f \in [{ p \in OctaFree : p[1] < 2 /\ p[2] # 3 } -> 1..2] }
===============================================================================

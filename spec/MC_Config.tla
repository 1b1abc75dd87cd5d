------------------------------- MODULE MC_Config --------------------------------
(* The parser as a cursor over the argument list; every list of at most N words.      *)
EXTENDS Config, Json
CONSTANTS N, Words
VARIABLES args, i, raw, g, phase
vars == <<args, i, raw, g, phase>>
None == << >>
Lists == UNION { [1..n -> Words] : n \in 0..N }
Init == args \in Lists /\ i = 1 /\ raw = None /\ g = Default /\ phase = "read"
ReadPair == phase = "read" /\ i + 1 =< Len(args) /\ raw' = PutPair(raw, args[i], args[i+1]) /\ i' = i + 2 /\ UNCHANGED <<args, g, phase>>
\* a last word without a partner is only reported
Trailing == phase = "read" /\ i = Len(args) /\ i' = i + 2 /\ UNCHANGED <<args, raw, g, phase>>
EndRead == phase = "read" /\ i > Len(args) /\ g' = Resolve(raw) /\ phase' = "resolved" /\ UNCHANGED <<args, i, raw>>
SetMode == phase = "resolved" /\ g' = Plan(g) /\ phase' = "planned" /\ UNCHANGED <<args, i, raw>>
Next == ReadPair \/ Trailing \/ EndRead \/ SetMode
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(phase = "planned")
AsDefined == /\ phase = "resolved" => g = Parse(args)
             /\ phase = "planned" => g = Plan(Parse(args))
\* an option no pair names keeps its default
Pairs == { k \in 1..Len(args) : k % 2 = 1 /\ k < Len(args) /\ Dashes(args[k]) > 0 }
Named(o) == { k \in Pairs : NameOf(args[k]) \in {o, Short[o]} }
Untouched == phase = "resolved" => \A o \in Options : Named(o) = {} => g[o] = Default[o]
\* an option named once has exactly that value, whatever the rest and the spelling
Given == phase = "resolved" => \A o \in Options : Cardinality(Named(o)) = 1 => g[o] = args[(CHOOSE k \in Named(o) : TRUE) + 1]
\* the mode never changes the user's explicit choice of a pipeline, and planning is stable
Precedence == phase = "planned" =>
    /\ (Parse(args).pipeline # "" /\ Parse(args).mpi # "1" => g = Parse(args))
    /\ Plan(g) = g
    /\ \A o \in Options \ {"pipeline", "preprocessor", "upscale", "complexType"} : g[o] = Parse(args)[o]
    /\ (g.mode \in {"reduced", "stream", "upscaleBound"} /\ Parse(args).preprocessor # "" => g.preprocessor = Parse(args).preprocessor)
\* swapping two pairs of different options changes nothing
Swap(a, b) == [k \in 1..Len(args) |-> CASE k = a -> args[b] [] k = a+1 -> args[b+1] [] k = b -> args[a] [] k = b+1 -> args[a+1] [] OTHER -> args[k]]
OrderFree == phase = "resolved" => \A a, b \in Pairs :
    (\A o \in Options : ~(a \in Named(o) /\ b \in Named(o))) /\ NameOf(args[a]) # NameOf(args[b]) => Parse(Swap(a, b)) = g
Emit == IF phase = "read" /\ i = 1 THEN PrintT("@@" \o ToJson([args |-> args])) ELSE TRUE
================================================================================

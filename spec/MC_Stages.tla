------------------------------- MODULE MC_Stages --------------------------------
(* Every sequence of stages made of the regular chain, at most Noise steps that must have
   no effect (unknown names, components without a required option, components never
   configured) and at most Again steps that configure after a refusal.                 *)
EXTENDS Stages, Json
CONSTANTS Noise, Again, Names
VARIABLES kind, p, comp, ready, at, noise, again, h, done
vars == <<kind, p, comp, ready, at, noise, again, h, done>>

D4 == << <<0, 2, 3, 2>>, <<0, 0, 2, 3>>, <<0, 0, 0, 2>>, <<0, 0, 0, 0>> >>      \* a square
In == [kind |-> kind, n |-> 4, D |-> D4, lim |-> 4, dims |-> 2]
Full == {"epsilon", "dimensions", "twist", "collapse"}

Init == /\ kind \in Storages /\ p = NewPacket /\ comp = "none" /\ ready = FALSE /\ at = "idle"
        /\ noise = 0 /\ again = 0 /\ h = <<>> /\ done = <<>>
Build(x) == /\ at = "idle" /\ comp' = Component(x, kind) /\ ready' = FALSE /\ at' = "built"
            /\ h' = Append(h, <<"build", x>>) /\ UNCHANGED <<kind, p, noise, again, done>>
Opts(S) == SetToSortSeq(S, LAMBDA a, b : ToString(a) < ToString(b))
Config(S) == /\ at = "built" /\ comp # "none" /\ ~ready
             /\ ready' = Ready(comp, S)
             /\ h' = Append(h, <<"config", S>>) /\ UNCHANGED <<kind, p, comp, at, noise, done>>
Refused(o) == again < Again /\ again' = again + 1 /\ Config(Full \ {o}) /\ ready' = FALSE
Accepted == Config(Full) /\ again' = again
Minimal == again < Again /\ again' = again + 1 /\ Config(Required(comp) \cup IF comp = "rips" THEN {"dimensions"} ELSE {}) /\ Required(comp) # Full
Run == /\ at = "built"
       /\ IF ready THEN Legal(comp, p) /\ (\A i \in 1..Len(done) : done[i] # comp) ELSE noise < Noise
       /\ noise' = IF ready THEN noise ELSE noise + 1
       /\ p' = RunStage(comp, ready, In, p) /\ at' = "idle"
       /\ done' = IF ready THEN Append(done, comp) ELSE done
       /\ h' = Append(h, <<"run">>) /\ UNCHANGED <<kind, comp, ready, again>>
Chain == <<"distMatrix", "neighGraph", "rips">>
Useful(x) == LET c == Component(x, kind) IN \/ noise < Noise
                                           \/ /\ Legal(c, p)
                                              /\ \A i \in 1..Len(done) : done[i] # c
Next == \/ \E x \in Names : Useful(x) /\ Build(x)
        \/ \E o \in Required(comp) : Refused(o)
        \/ Accepted \/ Minimal \/ Run
Spec == Init /\ [][Next]_vars
Bound == Len(done) =< 5

\* a packet is determined by the stages that really ran
RECURSIVE Replay(_, _)
Replay(s, q) == IF s = <<>> THEN q ELSE Replay(Tail(s), Record(Head(s), Transform(Head(s), In, q)))
OnlyWhatRan == p = Replay(done, NewPacket)
OneRowEach == Len(p.rows) = Len(done) /\ \A i \in 1..Len(done) : p.rows[i][1] = RowName(done[i])
RowsOnlyGrow == [][ /\ Len(p'.rows) \in {Len(p.rows), Len(p.rows) + 1}
                    /\ SubSeq(p'.rows, 1, Len(p.rows)) = p.rows
                    /\ p' # p => ready ]_vars
Level(c) == CASE c = "distMatrix" -> 1 [] c = "neighGraph" -> 2 [] c = "rips" -> 3 [] c \in {"fast", "pairs"} -> 4 [] OTHER -> 0
\* the complete chain gives the complex and the barcode of the definition, whatever else was in between
InChain == { i \in 1..Len(done) : Level(done[i]) > 0 }
Complete == /\ \A r \in 1..4 : \E i \in InChain : Level(done[i]) = r
            /\ \A i, j \in InChain : i < j => Level(done[i]) =< Level(done[j])
Correct == Complete =>
    /\ p.K = Rips(4, D4, 4, kind = "simplexArrayList", IF kind = "simplexArrayList" /\ "fast" \in { done[i] : i \in InChain } THEN 3 ELSE 2)
    /\ { b \in DOMAIN p.table : b[1] = 1 } \in { {}, {<<1, 2, 3>>} }
    /\ ("fast" \in { done[i] : i \in 1..Len(done) } => p.table = Barcode(4, p.K, D4, 4, 2))
Emit == IF at = "idle" /\ h # <<>> /\ (Legal("fast", p) => \E i \in 1..Len(done) : Level(done[i]) = 4)
        THEN PrintT("@@" \o ToJson([kind |-> kind, h |-> h])) ELSE TRUE
================================================================================

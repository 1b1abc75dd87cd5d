-------------------------------- MODULE MC_Files --------------------------------
(* The output folder along every short sequence of stages that ran: with debugging off
   only preprocessors leave files, and a file always comes from the last stage of its name. *)
EXTENDS Files
CONSTANTS MaxRuns
VARIABLES kind, dbg, dir, done
Comps == {"distMatrix", "neighGraph", "rips", "upscale", "fast", "pairs", "kmeans", "denStream"}
Init == kind \in Storages /\ dbg \in BOOLEAN /\ dir = [f \in {} |-> 0] /\ done = <<>>
Next == /\ Len(done) < MaxRuns
        /\ \E c \in Comps, ready \in BOOLEAN :
             /\ done' = Append(done, <<c, ready>>)
             /\ dir' = Leave(dir, FileNames(c, ready, dbg, kind), Len(done) + 1)
        /\ UNCHANGED <<kind, dbg>>
Spec == Init /\ [][Next]_<<kind, dbg, dir, done>>
Quiet == ~dbg => \A f \in DOMAIN dir : Pre(done[dir[f]][1])
Latest == \A f \in DOMAIN dir : /\ done[dir[f]][2] /\ f \in FileNames(done[dir[f]][1], TRUE, dbg, kind)
                              /\ \A i \in (dir[f]+1)..Len(done) : f \notin FileNames(done[i][1], done[i][2], dbg, kind)
OnlyShared == \A a, b \in Comps : FileNames(a, TRUE, TRUE, kind) \cap FileNames(b, TRUE, TRUE, kind) # {} => a = b \/ {a, b} = {"fast", "pairs"}
================================================================================

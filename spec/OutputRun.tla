----------------------------- MODULE OutputRun -----------------------------
(* Design model of what a command does to its output directory. It writes its *)
(* files one after the other, block by block, over whatever lies there. Disk  *)
(* may fill up at any block, the command may be killed at any step; it then   *)
(* has to be noticed that files are missing or incomplete, and a later run    *)
(* has to make up for it.  A file is <<run that wrote it, blocks>>.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Files, Blocks, MaxRuns
Old == <<0, 1>>        \* something an earlier version of the data left there
Absent == <<0, 0>>
VARIABLES disk, run, pc, todo, cur, room, report
vars == <<disk, run, pc, todo, cur, room, report>>
None == "none"
Init == /\ disk \in [Files -> {Absent, Old}] /\ run = 0 /\ pc = "idle" /\ todo = {} /\ cur = None /\ room = 0 /\ report = "none"
(* every run may find another amount of room (0: no more blocks), its inputs usable or not *)
Start(r) == /\ pc = "idle" /\ run < MaxRuns /\ run' = run + 1 /\ room' = r
            /\ pc' = "run" /\ todo' = Files /\ cur' = None /\ report' = "none" /\ UNCHANGED disk
Refuse == /\ pc = "run" /\ todo = Files /\ cur = None /\ pc' = "idle" /\ report' = "fail" /\ UNCHANGED <<disk, run, todo, cur, room>>
Create(f) == /\ pc = "run" /\ cur = None /\ f \in todo /\ cur' = f /\ todo' = todo \ {f}
             /\ disk' = [disk EXCEPT ![f] = <<run, 0>>] /\ UNCHANGED <<run, pc, room, report>>
Write == /\ pc = "run" /\ cur # None /\ disk[cur][2] < Blocks /\ room > 0 /\ room' = room - 1
         /\ disk' = [disk EXCEPT ![cur] = <<run, @[2] + 1>>] /\ UNCHANGED <<run, pc, todo, cur, report>>
(* a write that fails ends the run with a failure *)
Fail == /\ pc = "run" /\ cur # None /\ disk[cur][2] < Blocks /\ room = 0 /\ pc' = "idle" /\ report' = "fail"
        /\ UNCHANGED <<disk, run, todo, cur, room>>
Close == /\ pc = "run" /\ cur # None /\ disk[cur][2] = Blocks /\ cur' = None /\ UNCHANGED <<disk, run, pc, todo, room, report>>
Done == /\ pc = "run" /\ cur = None /\ todo = {} /\ pc' = "idle" /\ report' = "ok" /\ UNCHANGED <<disk, run, todo, cur, room>>
Kill == /\ pc = "run" /\ pc' = "idle" /\ report' = "killed" /\ UNCHANGED <<disk, run, todo, cur, room>>
Next == \/ \E r \in 0..(Blocks * Cardinality(Files)) : Start(r)
        \/ \E f \in Files : Create(f)
        \/ Refuse \/ Write \/ Fail \/ Close \/ Done \/ Kill
Spec == Init /\ [][Next]_vars
Whole(f) == disk[f][2] = Blocks
(* success is reported only with every file complete and of this run *)
OkIsComplete == report = "ok" => \A f \in Files : disk[f] = <<run, Blocks>>
(* what is there after a failure: files of this run, or those from before *)
NoMixture == \A f \in Files : disk[f] \in {Absent, Old} \/ disk[f][1] \in 1..run
(* a run with enough room that is left alone succeeds, whatever it found *)
EnoughIsOk == (pc = "run" /\ room = 0 /\ todo = {} /\ cur = None) => ENABLED Done
NeverShrinks == [][\A f \in Files : disk[f] # Absent => disk'[f] # Absent]_vars
=============================================================================

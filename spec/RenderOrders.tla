---------------------------- MODULE RenderOrders ----------------------------
(* All orders in which the steps Start, Deposit+Send and Merge of RenderRun can happen for
   one file and one box with W workers, written as schedules to force on the real code.
   Merges happen only after the main goroutine (worker W-1) has done its own share. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS W, Merges
VARIABLE x
Workers == 0..(W - 1)
RECURSIVE Orders(_, _, _)
Orders(started, done, merged) ==
   IF done = Workers /\ (merged = W \/ ~Merges) THEN {<<>>}
   ELSE UNION {{<<"start" \o ToString(w)>> \o o : o \in Orders(started \cup {w}, done, merged)} : w \in Workers \ started}
        \cup UNION {{<<"done" \o ToString(w)>> \o o : o \in Orders(started, done \cup {w}, merged)} : w \in started \ done}
        \cup (IF Merges /\ (W - 1) \in done /\ merged < Cardinality(done)
              THEN {<<"merge">> \o o : o \in Orders(started, done, merged + 1)} ELSE {})
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[sched |-> o] : o \in Orders({}, {}, 0)}))
Init == x = 0
Spec == Init /\ [][FALSE]_x
=============================================================================

---------------------------- MODULE SortingGen ----------------------------
(* Writes every transition of the bounded model as one call on the real code. *)
EXTENDS Sorting, Json, IOUtils
Ops(xs) == <<[e |-> "quick", xs |-> xs], [e |-> "shell", xs |-> xs], [e |-> "reverse", xs |-> xs]>>
           \o [k \in 1..Len(xs) |-> [e |-> "nth", xs |-> xs, n |-> k, buf |-> k % 2 = 0]]
           \o (IF xs = <<>> THEN <<>> ELSE <<[e |-> "median", xs |-> xs, buf |-> FALSE]>>
               \o [p \in 1..Denom + 1 |-> [e |-> "percentile", xs |-> xs, pn |-> p - 1, pd |-> Denom, buf |-> TRUE]])
ASSUME ndJsonSerialize(IOEnv.GEN, FlattenSeq(SetToSeq({Ops(x) : x \in Inputs})))
GInit == data = <<>> /\ orig = <<>> /\ ret = <<>>
GSpec == GInit /\ [][FALSE]_vars
=============================================================================

----------------------------- MODULE ConfigGen -----------------------------
(* every subset of the documented optional parameters of every section *)
EXTENDS ConfRules, SequencesExt, Json, IOUtils
VARIABLE x
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(UNION {{[sec |-> s, on |-> SetToSeq(o)] : o \in SUBSET Optional(s)} : s \in Sections}))
Init == x = 0
Spec == Init /\ [][FALSE]_x
=============================================================================

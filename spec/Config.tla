------------------------------- MODULE Config -------------------------------
(* Design model: a bounds entry and the region it becomes, for every box and ball of a
   small simulation box; a run configuration being filled in parameter by parameter. *)
EXTENDS ConfRules
CONSTANTS U
VARIABLES entry, region, given, sec
vars == <<entry, region, given, sec>>
None == [name |-> "none"]
Balls == [kind : {"Ball"}, name : {"b"}, axis : {"", "X"}, X : {<<x, x, 0>> : x \in -1..U}, W : {<<0, 0, 0>>}, r : -1..U, m2 : {-2, 0, 2, 4}]
Boxes == [kind : {"Box"}, name : {"b"}, axis : {"", "Y", "Q"}, X : {<<x, 0, x>> : x \in -1..U}, W : {<<w, U, v>> : w, v \in -1..(U + 1)}, r : {0}, m2 : {0}]
Init == entry \in Balls \cup Boxes /\ region = None /\ sec \in Sections /\ given = {}
Accept == region = None /\ RegionValid(entry, U) /\ region' = RegionOf(entry, U) /\ UNCHANGED <<entry, given, sec>>
Give == /\ region = None /\ entry.kind = "Ball" /\ entry.r = 1 /\ entry.X[1] = 0 /\ entry.m2 = 0 /\ entry.axis = ""
        /\ \E p \in Required(sec) \cup Optional(sec) : p \notin given /\ given' = given \cup {p}
        /\ UNCHANGED <<entry, region, sec>>
Next == Accept \/ Give
Spec == Init /\ [][Next]_vars
(* the region of a valid entry lies in the box and holds what it should *)
In(p, r, d) == (p - r.X[d]) % U < r.W[d]
Inside == region # None => \A d \in 1..3 : region.X[d] \in 0..(U - 1) /\ region.W[d] \in 1..U
Near(p, c, h) == \E k \in -1..1 : c - h <= p + k * U /\ p + k * U < c + h
Holds == (region # None /\ entry.kind = "Ball") =>
           \A d \in 1..3 : \A p \in 0..(U - 1) : In(p, region, d) <=> Near(p, entry.X[d], (entry.r * Mult2(entry)) \div 2)
Invalid == region # None => entry.axis # "Q" /\ \A d \in 1..3 : entry.X[d] # -1 /\ entry.X[d] # U
Disjoint == \A s \in Sections : Required(s) \cap Optional(s) = {}
Known == given \subseteq Required(sec) \cup Optional(sec)
=============================================================================

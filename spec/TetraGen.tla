------------------------------ MODULE TetraGen ------------------------------
(* Every cube and every point of small grids, every order of the corners of   *)
(* small tetrahedra with the points around them.                              *)
EXTENDS Tetrahedra, Json, IOUtils, SequencesExt
CONSTANT MaxN
Cubes == UNION {{[e |-> "cube", n |-> n, skip |-> k, idx |-> p[1] + (n * p[2]) + (n * n * p[3])] :
             p \in (0..n - 1 - k) \X (0..n - 1 - k) \X (0..n - 1 - k)} : <<n, k>> \in {q \in (2..MaxN) \X (1..3) : q[2] < q[1]}}
Mids  == UNION {{[e |-> "centered", n |-> n, skip |-> k, idx |-> i] : i \in 0..(n * n * n) - 1} : <<n, k>> \in (1..MaxN) \X (1..2)}
Shapes == { << <<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>> >>, << <<1, 0, 0>>, <<3, 2, 1>>, <<0, 2, 3>>, <<2, 3, 0>> >>,
            << <<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<1, 1, 1>> >>, << <<-1, -1, 2>>, <<2, -1, -1>>, <<-1, 2, -1>>, <<2, 2, 2>> >> }
Orders == {p \in [1..4 -> 1..4] : \A i \in 1..4, j \in 1..4 : p[i] = p[j] => i = j}
Around3 == FlattenSeq(SetToSeq({<<x, y, z>> : x \in -1..3, y \in -1..3, z \in -1..3}))
Tets == {<<[e |-> "tet", c |-> [k \in 1..4 |-> s[p[k]]], fresh |-> FALSE], [e |-> "has", ps |-> Around3], [e |-> "vol"], [e |-> "bary"]>> :
            s \in Shapes, p \in Orders}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Cubes) \o SetToSeq(Mids) \o FlattenSeq(SetToSeq(Tets)))
VARIABLE x
GSpec == x = 0 /\ [][FALSE]_x
=============================================================================

----------------------------- MODULE TetraPack -----------------------------
(* C11.  The design space of the cube's subdivisions: packing unit tetrahedra *)
(* into a cube one at a time.  Six that do not overlap fill it.               *)
EXTENDS Tetrahedra
(* points that lie on no plane through cube corners, scaled by 97 *)
Probe == {<<11, 29, 67>>, <<11, 67, 29>>, <<29, 11, 67>>, <<29, 67, 11>>, <<67, 11, 29>>, <<67, 29, 11>>,
          <<5, 17, 41>>, <<91, 83, 53>>, <<3, 95, 51>>, <<62, 45, 71>>, <<13, 19, 23>>, <<90, 9, 60>>, <<31, 43, 88>>, <<50, 64, 37>>}
Big(T) == {<<97 * v[1], 97 * v[2], 97 * v[3]>> : v \in T}

(* the design space: packing unit tetrahedra into the cube one at a time *)
VARIABLE pack
Mates == TLCEval({q \in UnitTetras \X UnitTetras : Apart(q[1], q[2])})
Holds == TLCEval({q \in Probe \X UnitTetras : InTet(q[1], Big(q[2]))})
Init == pack = {}
Next == Cardinality(pack) < 6 /\ \E T \in UnitTetras \ pack : (\A S \in pack : <<S, T>> \in Mates) /\ pack' = pack \cup {T}
Spec == Init /\ [][Next]_pack

NoOverlap == \A p \in Probe : Cardinality({T \in pack : <<p, T>> \in Holds}) <= 1
Fills     == Cardinality(pack) = 6 => \A p \in Probe : Cardinality({T \in pack : <<p, T>> \in Holds}) = 1
Complete  == Cardinality(pack) = 6 => \A S \in pack, T \in pack : S # T => <<S, T>> \in Mates
=============================================================================

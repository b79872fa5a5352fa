---------------------------- MODULE MonteCarlo ----------------------------
(* Design model of a Monte Carlo pass over a sheet segment: the cubes of the
   (sub)sampled segment are dealt out to workers, each visits its cubes in order and
   the six tetrahedra of each.  A tetrahedron is a monotone path of axis steps from
   one corner of the cube to the opposite one. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS MaxSeg, MaxWorkers
VARIABLES seg, skip, workers, next, visits
vars == <<seg, skip, workers, next, visits>>
Paths == {p \in [1..3 -> 1..3] : {p[1], p[2], p[3]} = 1..3}
Width == seg \div skip
NCubes == Width * Width * Width
Cube(i) == <<(i % Width) * skip, ((i \div Width) % Width) * skip, (i \div (Width * Width)) * skip>>
Unit(a) == [d \in 1..3 |-> IF d = a THEN 1 ELSE 0]
Plus(a, b) == [d \in 1..3 |-> a[d] + b[d]]
Times(k, a) == [d \in 1..3 |-> k * a[d]]
(* corners of the tetrahedron of path p at cube c: lattice sites of the segment's grid *)
Corners(c, p, k) == <<c, Plus(c, Times(k, Unit(p[1]))), Plus(c, Times(k, Plus(Unit(p[1]), Unit(p[2])))), Plus(c, <<k, k, k>>)>>
Tets == [at : {Cube(i) : i \in 0..(NCubes - 1)}, path : Paths]
Init == /\ seg \in 1..MaxSeg /\ skip \in {1, 2, 4} /\ seg % skip = 0 /\ workers \in 1..MaxWorkers
        /\ next = [w \in 0..(workers - 1) |-> w] /\ visits = [t \in Tets |-> 0]
Visit(w) == /\ next[w] < NCubes
            /\ visits' = [t \in Tets |-> IF t.at = Cube(next[w]) THEN visits[t] + 1 ELSE visits[t]]
            /\ next' = [next EXCEPT ![w] = @ + workers]
            /\ UNCHANGED <<seg, skip, workers>>
Next == \E w \in 0..(workers - 1) : Visit(w)
Spec == Init /\ [][Next]_vars
Finished == \A w \in 0..(workers - 1) : next[w] >= NCubes
AtMostOnce == \A t \in Tets : visits[t] <= 1
AllVisited == Finished => \A t \in Tets : visits[t] = 1
(* every corner is a particle of the segment, on the subsampled lattice *)
OnLattice == \A t \in Tets : \A c \in {Corners(t.at, t.path, skip)[k] : k \in 1..4} :
   \A d \in 1..3 : c[d] \in 0..seg /\ c[d] % skip = 0
(* the mass of a tetrahedron does not depend on the subsampling: skip^3 * cubes = seg^3 *)
MassKept == NCubes * skip * skip * skip = seg * seg * seg
===========================================================================

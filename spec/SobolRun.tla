------------------------------ MODULE SobolRun ------------------------------
(* The sequence as it is drawn, one Gray code step at a time, and restarted. *)
EXTENDS Sobol
VARIABLES n, x, seen
vars == <<n, x, seen>>
Init == n = 0 /\ x = [d \in 1..Dims |-> 0] /\ seen = <<>>
Draw == /\ n < 2 ^ B - 1
        /\ x' = [d \in 1..Dims |-> x[d] ^^ Dir[d][LowestZero(n) + 1]]
        /\ n' = n + 1 /\ seen' = Append(seen, x')
Restart == n \in {1, 5} /\ n' = 0 /\ x' = [d \in 1..Dims |-> 0] /\ seen' = <<>>
Next == Draw \/ Restart
Spec == Init /\ [][Next]_vars
ClosedForm == x = Point(n, Dims)
Ks == {k \in 1..B : n = 2 ^ k - 1}
Cells(d, k) == {seen[i][d] \div (2 ^ (B - k)) : i \in 1..n} \union {0}
(* with the origin, each of the 2^k intervals of width 2^-k is hit once, in every coordinate *)
Filled == \A k \in Ks : \A d \in 1..Dims : Cells(d, k) = 0..(2 ^ k - 1)
(* and every pair of coordinates is a (t, k, 2)-net, t the sum of the degrees less one each: *)
(* every elementary rectangle of area 2^-(k-t) holds 2^t points *)
Cell(v, a) == v \div (2 ^ (B - a))
Hits(d, f, a, b, p, q) == Cardinality({i \in 1..n : Cell(seen[i][d], a) = p /\ Cell(seen[i][f], b) = q}) + (IF p = 0 /\ q = 0 THEN 1 ELSE 0)
Net == \A k \in Ks : \A f \in 2..Dims : \A d \in 1..(f - 1) : \A t \in {Deg(d) + Deg(f) - 2} :
          k >= t => \A a \in 0..(k - t) : \A p \in 0..(2 ^ a - 1) : \A q \in 0..(2 ^ ((k - t) - a) - 1) :
                        Hits(d, f, a, (k - t) - a, p, q) = 2 ^ t
=============================================================================

---------------------------- MODULE HaloOverlap ----------------------------
(* When two halos of a periodic box intersect, and which cells of a search   *)
(* grid a sphere can reach. Lengths are integers; the box has width w and is *)
(* divided into c cells along each axis.                                     *)
EXTENDS Integers, Sequences
Wrap(x, w) == x % w
Apart1(a, b, w) == LET d == (a - b) % w IN IF 2 * d > w THEN w - d ELSE d
Sq(x) == x * x
(* squared distance of the nearest images of two points, given by coordinate *)
Dist2(p, q, w) == (Sq(Apart1(p[1], q[1], w)) + Sq(Apart1(p[2], q[2], w))) + Sq(Apart1(p[3], q[3], w))
Cell(x, w, c) == ((x % w) * c) \div w
(* the cells met by the interval from p - r to p + r: the first one and how many *)
First(p, r, w, c) == (((p - r) * c) \div w) % c
Span(p, r, w, c) == LET n == ((((p + r) * c) \div w) - (((p - r) * c) \div w)) + 1 IN IF n > c THEN c ELSE n
Covered(p, r, w, c, v) == (v - First(p, r, w, c)) % c < Span(p, r, w, c)
=============================================================================

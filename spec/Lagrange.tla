----------------------------- MODULE Lagrange -----------------------------
(* The Lagrangian grid: n^3 sites, cut into c^3 segments of (n/c)^3 sites,   *)
(* each stored with one extra layer on the upper side of every axis.         *)
EXTENDS Integers, Sequences, FiniteSets

Site(n, x, y, z) == x + y * n + z * n * n
SegWidth(n, c)   == n \div c
GridWidth(n, c)  == SegWidth(n, c) + 1
NSegs(c)         == c * c * c
NGrid(n, c)      == GridWidth(n, c) * GridWidth(n, c) * GridWidth(n, c)

SegStart(n, c, i) == <<SegWidth(n, c) * (i % c), SegWidth(n, c) * ((i \div c) % c), SegWidth(n, c) * (i \div (c * c))>>
Local(g, p)       == <<p % g, (p \div g) % g, p \div (g * g)>>
(* the site stored as p-th vector (from 0) of segment i *)
SegSite(n, c, i, p) ==
  LET g == GridWidth(n, c) IN LET s == SegStart(n, c, i) IN LET q == Local(g, p) IN
    Site(n, (s[1] + q[1]) % n, (s[2] + q[2]) % n, (s[3] + q[3]) % n)
Interior(n, c, p) ==
  LET q == Local(GridWidth(n, c), p) IN \A d \in 1..3 : q[d] < SegWidth(n, c)
Interiors(n, c) == {p \in 0..(NGrid(n, c) - 1) : Interior(n, c, p)}

(* laws of the decomposition *)
Tiling(n, c) ==
  /\ UNION {{SegSite(n, c, i, p) : p \in Interiors(n, c)} : i \in 0..(NSegs(c) - 1)} = 0..(n * n * n - 1)
  /\ NSegs(c) * Cardinality(Interiors(n, c)) = n * n * n
(* every stored copy of a site lies in the segment that owns the site or in the *)
(* extra layer of one of its lower neighbours                                   *)
Owner(n, c, s) == LET w == SegWidth(n, c) IN
   ((s % n) \div w) + c * (((s \div n) % n) \div w) + c * c * ((s \div (n * n)) \div w)
FacesShared(n, c) ==
  \A i \in 0..(NSegs(c) - 1) : \A p \in 0..(NGrid(n, c) - 1) :
     LET o == Owner(n, c, SegSite(n, c, i, p)) IN
       IF Interior(n, c, p) THEN o = i
       ELSE LET q == Local(GridWidth(n, c), p) IN
            LET up(d, e) == IF q[d] = SegWidth(n, c) THEN (e + 1) % c ELSE e IN
            o = up(1, i % c) + c * up(2, (i \div c) % c) + c * c * up(3, i \div (c * c))
=============================================================================

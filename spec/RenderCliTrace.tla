-------------------------- MODULE RenderCliTrace --------------------------
(* Runs of the render command.  Positions are in 640ths of the simulation width.  One
   event holds a configuration, the regions of its bounds files, the (collapsed) sheet
   files and everything found in the output directory afterwards. *)
EXTENDS BoxRules, FiniteSets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, known
E == Trace[l]
U == 640
Quantities == <<"Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl">>
Cube(n) == n * n * n
MaxOf(t) == IF t[1] >= t[2] /\ t[1] >= t[3] THEN t[1] ELSE IF t[2] >= t[3] THEN t[2] ELSE t[3]
RECURSIVE PowTwo(_)
PowTwo(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ PowTwo(n \div 2))

(* ---- which configurations are valid ---- *)
Mult(r) == IF r.m = 0 THEN 1 ELSE r.m
InBox(x) == \A d \in Dims : 0 <= x[d] /\ x[d] < U
RegionValid(r) ==
   /\ InBox(r.X) /\ r.axis \in {"", "X", "Y", "Z"}
   /\ IF r.kind = "Box" THEN \A d \in Dims : 0 < r.W[d] /\ r.W[d] <= U
      ELSE r.r > 0 /\ r.m >= 0 /\ 2 * r.r * Mult(r) <= U
Valid(e) ==
   /\ e.mode = "Render" /\ e.input /\ e.output /\ e.bounds = "ok" /\ Len(e.regions) > 0
   /\ \E i \in 1..Len(Quantities) : Quantities[i] = e.q
   /\ PowTwo(e.skip) /\ (e.tp > 0 \/ e.ip > 0) /\ (e.pts > 0 \/ e.pd > 0 \/ e.auto)
   /\ \A i \in 1..Len(e.regions) : RegionValid(e.regions[i])
   /\ Len(e.sheets) > 0 /\ \A i \in 1..Len(e.sheets) : e.sheets[i].cut = 0

(* ---- the region a bounds entry names ---- *)
Corner(r) == IF r.kind = "Box" THEN r.X ELSE [d \in Dims |-> (r.X[d] - r.r * Mult(r)) % U]
Width(r) == IF r.kind = "Box" THEN r.W ELSE [d \in Dims |-> 2 * r.r * Mult(r)]
(* pixels per side: ImagePixels makes the longest side that many pixels long *)
Near2(a, b) == LET q == (2 * a + b) \div (2 * b) IN IF (2 * a) % b = 0 /\ ((2 * a) \div b) % 2 = 1 THEN {q, q - 1} ELSE {q}
Cells(e, r) == IF e.ip > 0 THEN Near2(U * e.ip, MaxOf(Width(r))) ELSE {e.tp}
(* samples per tetrahedron: ceil(5 (cells/500)^3 skip^3 / depth) unless given *)
Ceil(a, b) == IF a % b = 0 THEN {a \div b, a \div b + 1} ELSE {a \div b + 1}
Depths(e, r, cells) ==
   LET ax == AxisOf(r.axis) IN
   IF ~e.auto THEN {e.pd} ELSE IF ax = 0 THEN {1}
   ELSE Ceil(Width(r)[ax] * cells, U) \cup (IF CanProject(e.q) THEN {} ELSE {1})
Points(e, r, cells) == IF e.auto \/ e.pd > 0 THEN UNION {LET x == Cube(cells * e.skip)
                                            q == (x + 24999999) \div 25000000
                                        IN IF x % 25000000 = 0 THEN Ceil(q, k) ELSE {(q + k - 1) \div k} : k \in Depths(e, r, cells)} ELSE {e.pts}

(* ---- what a grid file says ---- *)
Box(e, r, cells) == LET c == Corner(r)
                        w == Width(r)
                    IN BoxOf([X |-> [d \in Dims |-> c[d] * cells], W |-> [d \in Dims |-> w[d] * cells], sub |-> U, axis |-> r.axis, cells |-> cells, q |-> e.q])
TypeNo(q) == (CHOOSE i \in 1..5 : Quantities[i] = q) - 1
HeaderOK(e, r, b, g) ==
   /\ g.flag = "7ffffffffffffffe" /\ g.hs = 344 /\ g.typ = TypeNo(e.q)
   /\ g.vec = IF e.q \in {"Density", "VelocityDivergence"} THEN 0 ELSE 1
   /\ g.z = e.cosmo.z /\ g.om = e.cosmo.om /\ g.ol = e.cosmo.ol /\ g.h0 = 25 * e.cosmo.h /\ g.bw = U
   /\ g.tot = b.cells /\ g.pts \in Points(e, r, b.cells) /\ g.skip = e.skip
   /\ g.axis = b.proj - 1
   /\ g.po = b.org /\ g.ps = b.span /\ g.pw = 1000000
   /\ \A d \in Dims : g.org[d] = 1000 * b.org[d] /\ g.span[d] = 1000 * b.span[d]
Sum(S, f(_)) == FoldLeft(LAMBDA a, x : a + f(x), 0, SetToSeq(S))
ValuesOK(e, b, g) ==
   LET pix == TLCEval([i \in 1..Len(e.sheets) |-> Idx(b, [d \in Dims |-> e.sheets[i].P[d] * b.cells])])
       Here(p) == {i \in 1..Len(e.sheets) : pix[i] = p}
       comp == IF e.q \in {"Density", "VelocityDivergence"} THEN 1 ELSE 3
   IN /\ Len(g.vals) = comp * b.n
      /\ e.q = "Density" => LET D == IF b.proj # 0 THEN b.span[b.proj] ELSE 1
                            IN \A p \in 1..b.n : LET want == 4096 * Cardinality(Here(p)) IN Abs(g.vals[p] * D - want) <= D + want \div 4096
      /\ e.q = "Velocity" => \A p \in 1..b.n : \A c \in 1..3 :
            LET h == Here(p)
                n == Cardinality(h)
                want == 16 * Sum(h, LAMBDA i : e.sheets[i].V[c])
            IN IF n = 0 THEN g.vals[3 * p - 3 + c] = 0 ELSE Abs(g.vals[3 * p - 3 + c] * n - want) <= n + Abs(want) \div 4096
FileName(e, r) == e.pre \o r.name \o e.app \o ".gtet"
Elems(s) == {s[i] : i \in 1..Len(s)}
Old(e) == IF e.old THEN {"old.txt"} ELSE {}
Written(e) ==
   /\ e.outcome = "ok"
   /\ Elems(e.out) = {FileName(e, e.regions[i]) : i \in 1..Len(e.regions)} \cup Old(e)
   /\ \A i \in 1..Len(e.regions) : LET r == e.regions[i] IN
        \E k \in 1..Len(e.grids) : LET g == e.grids[k] IN
           /\ g.name = FileName(e, r) /\ g.outcome = "ok"
           /\ \E cells \in Cells(e, r) : LET b == TLCEval(Box(e, r, cells)) IN HeaderOK(e, r, b, g) /\ ValuesOK(e, b, g)
(* what an earlier run left there stays as it was *)
Refused(e) == e.outcome = "refused" /\ Elems(e.out) = Old(e) \cup Elems(e.stalenames) /\ e.kept
TRender == /\ l <= Len(Trace) /\ E.e = "render" /\ l' = l + 1 /\ known' = Valid(E)
           /\ E.oldok
           /\ IF Valid(E) THEN Written(E) ELSE Refused(E)
TraceInit == l = 1 /\ known = TRUE
TraceNext == TRender
TraceSpec == TraceInit /\ [][TraceNext]_<<l, known>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================

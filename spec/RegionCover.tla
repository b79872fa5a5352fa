---------------------------- MODULE RegionCover ----------------------------
(* The region-to-pixel rule checked against its meaning, for every region of small grids:
   the pixels of a region are exactly those the closed interval [x, x+w] touches (counting
   an edge as part of the pixel above it), a region as large as the box covers every pixel,
   and two regions that share a point share a pixel. *)
EXTENDS PixRange, FiniteSets
CONSTANTS MaxSub, MaxCells
VARIABLES sub, cells, x, w, y, v
vars == <<sub, cells, x, w, y, v>>
Init == /\ sub \in 1..MaxSub /\ cells \in 1..MaxCells
        /\ x \in 0..(sub * cells - 1) /\ w \in 1..(sub * cells)
        /\ y \in 0..(sub * cells - 1) /\ v \in 1..(sub * cells)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
O == PixLo(x, sub)
S == PixSpan(x, w, sub)
(* pixel p (unwrapped) holds a point of the region *)
Touches(p) == \E t \in x..(x + w) : p * sub <= t /\ t < (p + 1) * sub
Exact == \A p \in 0..(2 * cells) : Touches(p) <=> (O <= p /\ p < O + S)
InGrid == 0 <= O /\ O < cells /\ 1 <= S /\ S <= cells + 1
Whole == w = sub * cells => Pixels(O, S, cells) = 0..(cells - 1)
(* regions that share a point (modulo the box) share a pixel, and the overlap rule says so *)
Points(a, b) == {t % (sub * cells) : t \in a..(a + b)}
Meet == LET s == Share(O, S, PixLo(y, sub), PixSpan(y, v, sub), cells) IN
        /\ (Points(x, w) \cap Points(y, v) # {}) => s
        /\ s = Meets(O, S, PixLo(y, sub), PixSpan(y, v, sub), cells)
===========================================================================

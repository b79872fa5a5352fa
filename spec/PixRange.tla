----------------------------- MODULE PixRange -----------------------------
(* Pixel ranges of a periodic grid with `cells` pixels per side.  A position is an
   integer number of 1/sub pixels.  These are the rules the rest of the rendering
   specifications are written with. *)
EXTENDS Integers, Sequences
Dims == 1..3
PixLo(x, sub) == x \div sub
PixSpan(x, w, sub) == (x + w) \div sub + 1 - x \div sub
(* the place of pixel p in a range that starts at o *)
Rel(p, o, cells) == (p - o) % cells
(* pixels (modulo the grid) of a range, and whether two ranges share one *)
Pixels(o, w, cells) == {(o + i) % cells : i \in 0..(w - 1)}
Share(o1, w1, o2, w2, cells) == Pixels(o1, w1, cells) \cap Pixels(o2, w2, cells) # {}
(* exactly what circular intervals amount to, without building the sets *)
Meets(o1, w1, o2, w2, cells) == Rel(o2, o1, cells) < w1 \/ Rel(o1, o2, cells) < w2
Meets3(a, b, cells) == \A d \in Dims : Meets(a.org[d], a.span[d], b.org[d], b.span[d], cells)
(* ranges on a line *)
MeetsLine(o1, w1, o2, w2) == o1 < o2 + w2 /\ o2 < o1 + w1
Region(x, w, sub) == [org |-> [d \in Dims |-> PixLo(x[d], sub)], span |-> [d \in Dims |-> PixSpan(x[d], w[d], sub)]]
(* axes of an image or volume in increasing order; projection axis 0 = none *)
Axes(proj) == CASE proj = 0 -> <<1, 2, 3>> [] proj = 1 -> <<2, 3>> [] proj = 2 -> <<1, 3>> [] OTHER -> <<1, 2>>
Size(span, proj) == LET a == Axes(proj) IN IF Len(a) = 3 THEN span[1] * span[2] * span[3] ELSE span[a[1]] * span[a[2]]
(* 1-based index of relative coordinates r, first axis fastest *)
Flat(r, span, proj) == LET a == Axes(proj) IN
   1 + r[a[1]] + span[a[1]] * r[a[2]] + (IF Len(a) = 3 THEN span[1] * span[2] * r[3] ELSE 0)
===========================================================================

------------------------------ MODULE Deposit ------------------------------
(* Design model of the deposit of points into a box through an intermediate buffer
   that covers either the sheet segment or the box itself (render/box.go,
   render/geom/grid.go), along one axis: every axis is treated alike and
   independently.  The arithmetic is that of the design: positions relative to the
   segment made non-negative, shifted by the wrapped distance of segment and box,
   and wrapped once.  GridRight is the rule of C07. *)
EXTENDS PixRange, FiniteSets, TLC
CONSTANTS Cells, MaxPts
VARIABLES segs, dom, kind, seg, todo, done, buf, grid, phase
vars == <<segs, dom, kind, seg, todo, done, buf, grid, phase>>
Range == [org : 0..(Cells - 1), span : 1..(Cells - 1)]
BoxRange == [org : 0..(Cells - 1), span : 1..(Cells + 1)]
SegPix(s) == {(s.org + i) % Cells : i \in 0..(s.span - 1)}
Kinds == {"segment", "domain"}
ZeroB == [i \in 0..Cells |-> 0]

Wrap(x) == IF x < 0 THEN x + Cells ELSE IF x >= Cells THEN x - Cells ELSE x
(* position of pixel p in the code units of the segment: non-negative *)
ToSegment(p) == LET v == p - seg.org IN IF v < 0 THEN v + Cells ELSE v
Diff == LET d == seg.org - dom.org IN IF 2 * d < -Cells THEN d + Cells ELSE IF 2 * d > Cells THEN d - Cells ELSE d

Init == /\ dom \in BoxRange /\ segs = <<>> /\ kind = "segment" /\ seg = [org |-> 0, span |-> 1]
        /\ todo = {} /\ done = [p \in 0..(Cells - 1) |-> 0] /\ buf = ZeroB /\ grid = ZeroB /\ phase = "idle"
StartSegment == /\ phase = "idle" /\ Len(segs) < 2
                /\ seg' \in Range /\ kind' \in Kinds
                /\ todo' \in SUBSET SegPix(seg') /\ Cardinality(todo') <= MaxPts
                /\ segs' = Append(segs, 1)
                /\ buf' = ZeroB /\ phase' = "deposit" /\ UNCHANGED <<dom, done, grid>>
DepositOne == /\ phase = "deposit"
              /\ \E p \in todo :
                  /\ todo' = todo \ {p} /\ done' = [done EXCEPT ![p] = @ + 1]
                  /\ LET i == IF kind = "segment" THEN ToSegment(p) ELSE Wrap(ToSegment(p) + Diff)
                         fits == i < (IF kind = "segment" THEN seg.span ELSE dom.span)
                     IN buf' = IF fits THEN [buf EXCEPT ![i] = @ + 1] ELSE buf
              /\ UNCHANGED <<segs, dom, kind, seg, grid, phase>>
Merge == /\ phase = "deposit" /\ todo = {}
         /\ grid' = [j \in 0..Cells |-> grid[j] +
               (IF kind = "domain" THEN (IF j < dom.span THEN buf[j] ELSE 0)
                ELSE IF j < dom.span /\ \E i \in 0..(seg.span - 1) : Wrap(i + seg.org - dom.org) = j
                THEN buf[CHOOSE i \in 0..(seg.span - 1) : Wrap(i + seg.org - dom.org) = j] ELSE 0)]
         /\ phase' = "idle" /\ UNCHANGED <<segs, dom, kind, seg, todo, done, buf>>
Next == StartSegment \/ DepositOne \/ Merge
Spec == Init /\ [][Next]_vars
(* C07: every deposited point is counted once, in the pixel of the box that contains it *)
GridRight == phase = "idle" => \A j \in 0..Cells : grid[j] =
   (IF j < dom.span /\ j < Cells THEN done[(dom.org + j) % Cells] ELSE 0)
(* the overlap rule used to leave files and tetrahedra out never misses a shared pixel *)
MeetsRight == \A s \in Range : Share(s.org, s.span, dom.org, dom.span, Cells) <=> Meets(s.org, s.span, dom.org, dom.span, Cells)
============================================================================

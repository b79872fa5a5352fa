----------------------------- MODULE HistTrace -----------------------------
(* Traces of real histogram runs (the HistManager under forced schedules, under the race
   detector, and the TetraHist command).  Positions are in 640ths of the simulation width.
   Sheets are collapsed onto one point or spread; for spread sheets every tetrahedron whose
   bounding box lies in the box and on pixels of one bin must be counted in full, and only
   tetrahedra that can reach the box may be counted.  Values are quarters (linear scale) or
   twelfths of a decade (logarithmic scale; -100000 and below: not positive).
   Hook events must be steps of HistRun. *)
EXTENDS RenderRunTrace
HU == 640
Perms == <<<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>>>
TGrid == Is("grid") /\ E.outcome = "ok" /\ sheets' = ((-1 - E.g) :> l) @@ sheets /\ UNCHANGED <<run, seen, act>>
G(e) == Trace[sheets[-1 - e.g]]

(* ---- pieces of a sheet: boxes that hold whole tetrahedra, and how many ---- *)
GSite(f, c) == 1 + c[1] + (Sheet(f).segw + 1) * (c[2] + (Sheet(f).segw + 1) * c[3])
GPos(f, c) == LET i == 3 * GSite(f, c) IN <<Sheet(f).P[i - 2], Sheet(f).P[i - 1], Sheet(f).P[i]>>
CornerOf(c, a, k, skip) == [d \in Dims |-> c[d] + (IF \E i \in 1..k : Perms[a][i] = d THEN skip ELSE 0)]
Signed(x) == LET m == x % HU IN IF m > HU \div 2 THEN m - HU ELSE m
Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == CHOOSE x \in S : \A y \in S : x >= y
Piece(f, c, a, skip) ==
   CHOOSE q \in {LET p == TLCEval([k \in 1..4 |-> GPos(f, CornerOf(c, a, k - 1, skip))])
       off == [d \in Dims |-> TLCEval({Signed(p[k][d] - p[1][d]) : k \in 1..4})]
       o1 == TLCEval(off[1])
       o2 == TLCEval(off[2])
       o3 == TLCEval(off[3])
       lo == <<Lo(o1), Lo(o2), Lo(o3)>>
   IN [lo |-> <<p[1][1] + lo[1], p[1][2] + lo[2], p[1][3] + lo[3]>>, ext |-> <<Hi(o1) - lo[1], Hi(o2) - lo[2], Hi(o3) - lo[3]>>, k |-> 1, f |-> f]} : TRUE
Pieces(f, skip) ==
   IF Collapsed(f) THEN <<[lo |-> Sheet(f).P, ext |-> <<0, 0, 0>>, k |-> 6 * Cube(Sheet(f).segw \div skip), f |-> f]>>
   ELSE LET w == Sheet(f).segw \div skip IN
        [i \in 1..(6 * w * w * w) |->
            LET j == (i - 1) \div 6 IN
            Piece(f, <<(j % w) * skip, ((j \div w) % w) * skip, (j \div (w * w)) * skip>>, 1 + ((i - 1) % 6), skip)]

(* ---- what one piece can put where ---- *)
Sure(p, b) == \A d \in Dims : b.W[d] = HU \/ ((p.lo[d] - b.X[d]) % HU) + p.ext[d] < b.W[d]
May(p, b) == \A d \in Dims : (p.lo[d] - b.X[d]) % HU < b.W[d] \/ (b.X[d] - p.lo[d]) % HU <= p.ext[d]
BinOf(e, v) == IF v < e.min \/ v >= e.max THEN 0 ELSE 1 + (((v - e.min) * e.bins) \div (e.max - e.min))
BinsOf(e, p) ==
   LET g == G(e)
       sub == HU \div g.cells
       \* pixels of the grid along d
       r(d) == {Rel(q, g.org[d], g.cells) : q \in (p.lo[d] \div sub)..((p.lo[d] + p.ext[d]) \div sub)}
       in(d) == TLCEval({x \in r(d) : x < g.span[d]})
       all == Cardinality(in(1)) * Cardinality(in(2)) * Cardinality(in(3)) = Cardinality(r(1)) * Cardinality(r(2)) * Cardinality(r(3))
   IN TLCEval({BinOf(e, g.vals[Flat(<<x, y, z>>, g.span, 0)]) : x \in in(1), y \in in(2), z \in in(3)} \cup (IF all THEN {} ELSE {0}))
All(e) == TLCEval(FoldLeft(LAMBDA a, f : a \o TLCEval(Pieces(f, e.skip)), <<>>, e.files))
(* (\A x \in {value} : ... makes TLC compute the value once) *)
CountsOK(e, all, counts) ==
   /\ Len(counts) = Len(e.boxes)
   /\ \A bins \in {TLCEval([i \in 1..Len(all) |-> IF \E b \in 1..Len(e.boxes) : May(all[i], e.boxes[b]) THEN BinsOf(e, all[i]) ELSE {}])} :
      \A b \in 1..Len(e.boxes) :
        \A sure \in {{i \in 1..Len(all) : Sure(all[i], e.boxes[b])}} :
        \A may \in {{i \in 1..Len(all) : May(all[i], e.boxes[b])}} :
           LET Total(S) == e.pts * FoldLeft(LAMBDA a, i : a + all[i].k, 0, SetToSeq(S))
           IN /\ Len(counts[b]) = e.bins
              /\ \A k \in 1..e.bins :
                   /\ counts[b][k] >= Total({i \in sure : bins[i] = {k}})
                   /\ counts[b][k] <= Total({i \in may : k \in bins[i]})
              /\ LET n == FoldLeft(LAMBDA x, y : x + y, 0, counts[b])
                 IN /\ n >= Total({i \in sure : 0 \notin bins[i]})
                    /\ n <= Total({i \in may : bins[i] # {0}})
(* sheets laid out evenly, sampled often, under a grid of one value: every box must get
   its share of the volume (to an eighth: the samples are random) *)
Uni(f) == /\ ~Collapsed(f)
          /\ LET s == Sheet(f)
                 n == s.segw + 1
             IN /\ \A d \in Dims : s.Wd[d] % s.segw = 0
                /\ \A i \in 0..(n * n * n - 1) : LET c == <<i % n, (i \div n) % n, i \div (n * n)>> IN
                     \A d \in Dims : s.P[3 * i + d] = (s.O[d] + c[d] * (s.Wd[d] \div s.segw)) % HU
Overlap(o, w, x, ww) == LET r == (o - x) % HU
                            a == (IF r + w < ww THEN r + w ELSE ww) - r
                            b == r + w - HU
                        IN (IF a > 0 THEN a ELSE 0) + (IF b > ww THEN ww ELSE IF b > 0 THEN b ELSE 0)
Part(s, b, d, k) == IF s.Wd[d] = 0 THEN (IF (s.O[d] - b.X[d]) % HU < b.W[d] THEN k ELSE 0)
                    ELSE (k * Overlap(s.O[d], s.Wd[d], b.X[d], b.W[d])) \div s.Wd[d]
SharesOK(e, counts) ==
   LET g == G(e)
       bins == {BinOf(e, g.vals[i]) : i \in 1..Len(g.vals)}
   IN (e.pts >= 500 /\ Len(g.vals) = Cube(g.cells) /\ Cardinality(bins) = 1 /\ \A i \in 1..Len(e.files) : Uni(e.files[i]))
      => \A k \in bins \ {0} : \A b \in 1..Len(e.boxes) :
           LET N(f) == 6 * e.pts * Cube(Sheet(f).segw \div e.skip)
               all == FoldLeft(LAMBDA a, f : a + N(f), 0, e.files)
               want == FoldLeft(LAMBDA a, f : a + N(f) * Part(Sheet(f), e.boxes[b], 3, Part(Sheet(f), e.boxes[b], 2, Part(Sheet(f), e.boxes[b], 1, 1024))), 0, e.files)
           IN Abs(1024 * counts[b][k] - want) <= 130 * all
(* the files that must have been worked on for a box *)
Needs(e, all) == {p \in {e.files[i] : i \in 1..Len(e.files)} \X (1..Len(e.boxes)) :
                     \E i \in 1..Len(all) : all[i].f = p[1] /\ Sure(all[i], e.boxes[p[2]])}
Center(e, i) == 1000 * e.min + ((1000 * (e.max - e.min) * (2 * i - 1)) \div (2 * e.bins))
CentersOK(e, centers, tol) == /\ Len(centers) = Len(e.boxes)
   /\ \A b \in 1..Len(centers) : Len(centers[b]) = e.bins
        /\ \A i \in 1..e.bins : Abs(centers[b][i] - Center(e, i)) <= 2 + (IF tol THEN 3 + Abs(Center(e, i)) \div 1000 ELSE 0)
(* a sheet that is cut short must be reported if its particles are needed *)
CutNeeded(e, need) == \E p \in need : Sheet(p[1]).cut > 0
CutAny(e) == \E i \in 1..Len(e.files) : Sheet(e.files[i]).cut > 0
BadGrid(e) == G(e).axis >= 0 \/ G(e).cut > 0
ResultOK(e, all, need, tol) ==
   IF e.outcome = "ok" THEN ~BadGrid(e) /\ ~CutNeeded(e, need) /\ CountsOK(e, all, e.counts) /\ SharesOK(e, e.counts) /\ CentersOK(e, e.centers, tol)
   ELSE e.outcome \in {"err", "refused"} /\ (BadGrid(e) \/ CutAny(e))
THist == /\ Is("hist") /\ UNCHANGED sheets /\ seen' = {} /\ act' = Idle
         /\ \E all \in {All(E)} : \E need \in {Needs(E, all)} :
               ResultOK(E, all, need, FALSE) /\ run' = [files |-> E.files, boxes |-> E.boxes, hooked |-> E.outcome = "ok" /\ E.hooked, need |-> need]
THRan == /\ Is("hran") /\ Settled /\ UNCHANGED <<sheets, run, seen, act>>
         /\ run.hooked => run.need \subseteq seen
(* ---- the TetraHist command ---- *)
Side(r) == IF r.m = 0 THEN 2 * r.r ELSE 2 * r.r * r.m
HBox(r) == IF r.kind = "Box" THEN [X |-> r.X, W |-> r.W]
           ELSE [X |-> [d \in Dims |-> (r.X[d] - (Side(r) \div 2)) % HU], W |-> <<Side(r), Side(r), Side(r)>>]
TCli == /\ Is("tetrahist") /\ UNCHANGED <<sheets, run, seen, act>>
        /\ \E e \in {[E EXCEPT !.boxes = TLCEval([i \in 1..Len(E.regions) |-> HBox(E.regions[i])])]} :
           \E all \in {All(e)} : ResultOK(e, all, Needs(e, all), TRUE)
        /\ {E.out[i] : i \in 1..Len(E.out)} =
             IF E.outcome = "ok" THEN {E.pre \o E.regions[i].name \o E.app \o ".txt" : i \in 1..Len(E.regions)} ELSE {}
HNext == Begin \/ TSheet \/ TGrid \/ THist \/ TBegin \/ TStart \/ TDone \/ TMerge \/ THRan \/ TCli
HSpec == TraceInit /\ [][HNext]_vars
============================================================================

----------------------------- MODULE GridFile -----------------------------
(* C06.  Density grid (.gtet) files: a self-describing header followed by   *)
(* the finalised values of the rendered buffer; the Go and Python readers.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Files
VARIABLES disk, res
vars == <<disk, res>>

HeaderSize == 344
Quantities == <<"Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl">>
Code(q)    == CHOOSE i \in 0..4 : Quantities[i + 1] = q
IsVector(q) == q \in {"DensityGradient", "Velocity", "VelocityCurl"}
Simple(q)  == q \in {"Density", "Velocity"}
CanProject(q) == Simple(q)
AxisNo(a)  == CASE a = "X" -> 0 [] a = "Y" -> 1 [] a = "Z" -> 2 [] OTHER -> -1

(* number of pixels stored; shape in C order *)
Span(sp, ax, d)  == IF d = AxisNo(ax) + 1 THEN 1 ELSE sp[d]
NPix(sp, ax)     == Span(sp, ax, 1) * Span(sp, ax, 2) * Span(sp, ax, 3)
Kept(ax)         == SelectSeq(<<3, 2, 1>>, LAMBDA d : d # AxisNo(ax) + 1)
Shape(sp, ax)    == [i \in 1..Len(Kept(ax)) |-> sp[Kept(ax)[i]]]
NBlocks(q)       == IF IsVector(q) THEN 3 ELSE 1

(* endianness and version in one flag: version 2, little endian *)
FlagHi == 2147483647
FlagLo == -2

(* r: what was rendered: q, axis, org, span, pw (1/16), cells, particles, skip, z, om, ol (1/16), h0, bw *)
Header(r) ==
  [hi |-> FlagHi, lo |-> FlagLo, hsize |-> HeaderSize, gtype |-> Code(r.q),
   vec |-> IF IsVector(r.q) THEN 1 ELSE 0,
   z |-> r.z, a |-> 1024 \div (1 + r.z), om |-> r.om, ol |-> r.ol, h0 |-> r.h0, bw |-> r.bw,
   particles |-> r.particles, total |-> r.cells, skip |-> r.skip, axis |-> AxisNo(r.axis),
   porg |-> r.org, pspan |-> r.span, pwid |-> r.pw,
   lorg |-> [d \in 1..3 |-> r.org[d] * r.pw], lspan |-> [d \in 1..3 |-> r.span[d] * r.pw]]

(* the finalised values (quarters) of the quantities whose finalisation is    *)
(* plain: density values as accumulated, velocities averaged over the counts  *)
Mean(v, n) == IF n = 0 THEN 0 ELSE (4 * v) \div n
Finalised(q, vals, num) ==
  CASE q = "Density"  -> [i \in 1..Len(vals) |-> 4 * vals[i]]
    [] q = "Velocity" -> LET n == Len(num) IN
          [j \in 1..(3 * n) |-> LET b == (j - 1) \div n IN LET i == ((j - 1) % n) + 1 IN Mean(vals[3 * (i - 1) + b + 1], num[i])]
    [] OTHER -> <<>>

Absent  == [there |-> FALSE]
Failure == [ok |-> FALSE, v |-> <<>>]
Success(v) == [ok |-> TRUE, v |-> v]
Size(r) == HeaderSize + 4 * NBlocks(r.q) * NPix(r.span, r.axis)

(* bits: the words of the finalised values *)
Write(f, r, vals, num, bits) ==
  /\ Len(bits) = NBlocks(r.q) * NPix(r.span, r.axis)
  /\ disk' = [disk EXCEPT ![f] = [there |-> TRUE, r |-> r, fin |-> Finalised(r.q, vals, num), bits |-> bits, len |-> Size(r)]]
  /\ res' = Success(Size(r))
Cut(f, k) == disk[f].there /\ k <= disk[f].len /\ disk' = [disk EXCEPT ![f].len = k] /\ res' = Failure

ReadHeader(f) == /\ UNCHANGED disk
                 /\ res' = IF disk[f].there /\ disk[f].len >= HeaderSize THEN Success(Header(disk[f].r)) ELSE Failure
Whole(d)  == d.there /\ d.len = Size(d.r)
ReadGrid(f) == /\ UNCHANGED disk
               /\ res' = IF Whole(disk[f]) /\ ~IsVector(disk[f].r.q)
                         THEN Success([fin |-> disk[f].fin, bits |-> disk[f].bits]) ELSE Failure
(* the Python reader also reads vector grids and gives them their shape *)
PyReadGrid(f) == /\ UNCHANGED disk
                 /\ res' = IF Whole(disk[f])
                           THEN Success([fin |-> disk[f].fin, bits |-> disk[f].bits,
                                         shape |-> (IF IsVector(disk[f].r.q) THEN <<3>> ELSE <<>>) \o Shape(disk[f].r.span, disk[f].r.axis)])
                           ELSE Failure
----------------------------------------------------------------------------
Spans == {<<1, 2, 3>>, <<2, 2, 1>>}
R0(q, ax, sp) == [q |-> q, axis |-> ax, org |-> <<0, 1, 2>>, span |-> sp, pw |-> 8, cells |-> 4, particles |-> 3, skip |-> 1,
                  z |-> 1, om |-> 5, ol |-> 11, h0 |-> 70, bw |-> 2]
Init == disk = [f \in Files |-> Absent] /\ res = Failure
NumFor(n) == {[i \in 1..n |-> i % 3], [i \in 1..n |-> 0]}
Next == \E f \in Files :
   \/ \E i \in 1..5, sp \in Spans, ax \in {"X", "Y", "Z", ""} :
         LET q == Quantities[i] IN
         /\ (ax # "" => CanProject(q))
         /\ LET n == NPix(sp, ax) IN
            \E num \in NumFor(n) : LET vals == [j \in 1..(IF q = "Density" THEN n ELSE 3 * n) |-> 2 * j] IN
               Write(f, R0(q, ax, sp), vals, num, IF Simple(q) THEN Finalised(q, vals, num) ELSE [j \in 1..(NBlocks(q) * n) |-> j])
   \/ disk[f].there /\ \E k \in {HeaderSize - 1, HeaderSize, Size(disk[f].r) - 1} : Cut(f, k)
   \/ ReadHeader(f) \/ ReadGrid(f) \/ PyReadGrid(f)
Spec == Init /\ [][Next]_vars

SelfDescribing == \A f \in Files : disk[f].there =>
   LET d == disk[f] IN LET h == Header(d.r) IN
     /\ Len(d.bits) * 4 + h.hsize = Size(d.r)
     /\ (h.vec = 1) <=> (Size(d.r) - h.hsize = 12 * NPix(d.r.span, d.r.axis))
     /\ Simple(d.r.q) => Len(d.fin) = Len(d.bits)
UnwrittenIsZero == \A f \in Files : (disk[f].there /\ disk[f].r.q = "Velocity") =>
   \A j \in 1..Len(disk[f].fin) : disk[f].fin[j] # 0 => disk[f].fin[j] > 0
=============================================================================

----------------------------- MODULE BoxRules -----------------------------
(* Boxes that are rendered: their pixel range, their layout and where points go. *)
EXTENDS PixRange, SequencesExt, TLC
AxisOf(s) == CASE s = "X" -> 1 [] s = "Y" -> 2 [] s = "Z" -> 3 [] OTHER -> 0
CanProject(q) == q \in {"Density", "Velocity"}
Vector(q) == q \in {"Velocity", "VelocityDivergence", "VelocityCurl"}
Comp(q) == IF Vector(q) THEN 3 ELSE 1
BoxOf(e) == LET r == Region(e.X, e.W, e.sub)
                pr == IF CanProject(e.q) THEN AxisOf(e.axis) ELSE 0
                n == Size(r.span, pr)
            IN [org |-> r.org, span |-> r.span, proj |-> pr, cells |-> e.cells, sub |-> e.sub, q |-> e.q, n |-> n,
                sum |-> [i \in 1..(Comp(e.q) * n) |-> 0], cnt |-> [i \in 1..n |-> 0]]
(* the index of every point: 0 = outside the box *)
Idx(b, p) == LET r == [d \in Dims |-> Rel(p[d] \div b.sub, b.org[d], b.cells)] IN
   IF \A d \in Dims : r[d] < b.span[d] THEN Flat(r, b.span, b.proj) ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
(* what a box must report about itself *)
BoxOK(e) == LET b == TLCEval(BoxOf(e)) IN
           /\ e.co = b.org /\ e.cs = b.span
           /\ e.rcells = e.cells /\ e.rpts = e.pts
           /\ e.pok = (b.proj # 0) /\ (b.proj # 0 => e.pax = b.proj - 1) /\ (b.proj = 0 => e.pax = -1)
           /\ e.len = b.n
           /\ e.cwok
(* the box after samples with pixel indices ix (0 = outside) and weights W(sample, component) *)
Deposited(b, ix, W(_, _)) ==
   LET in == TLCEval(SelectSeq([k \in 1..Len(ix) |-> k], LAMBDA k : ix[k] # 0))
       s1 == IF Vector(b.q)
             THEN FoldLeft(LAMBDA g, k : [g EXCEPT ![3*ix[k]-2] = @ + W(k,1), ![3*ix[k]-1] = @ + W(k,2), ![3*ix[k]] = @ + W(k,3)], b.sum, in)
             ELSE FoldLeft(LAMBDA g, k : [g EXCEPT ![ix[k]] = @ + W(k,1)], b.sum, in)
       c1 == IF Vector(b.q) THEN FoldLeft(LAMBDA g, k : [g EXCEPT ![ix[k]] = @ + 1], b.cnt, in) ELSE b.cnt
   IN [b EXCEPT !.sum = TLCEval(s1), !.cnt = TLCEval(c1)]
(* sums are in sixteenths; the driver reports round(value * 4096) *)
ValsOK(b, e) ==
   LET vec == Vector(b.q)
       D == IF b.proj # 0 /\ ~vec THEN b.span[b.proj] ELSE 1
   IN /\ Len(e.vals) = Len(b.sum)
      /\ \A i \in 1..Len(b.sum) : Abs(e.vals[i] * D - b.sum[i] * 256) <= D
      /\ vec => e.cnt = b.cnt
      /\ ~vec => e.cnt = <<>>
      /\ (b.q \in {"Density", "Velocity"}) =>
           /\ Len(e.fin) = Len(b.sum)
           /\ \A i \in 1..Len(b.sum) :
                LET p == IF vec THEN (i + 2) \div 3 ELSE i
                    m == IF ~vec THEN D ELSE IF b.cnt[p] = 0 THEN 1 ELSE b.cnt[p]
                IN Abs(e.fin[i] * m - b.sum[i] * 256) <= 2 * m + Abs(b.sum[i]) \div 1024
===========================================================================

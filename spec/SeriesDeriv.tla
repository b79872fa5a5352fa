---------------------------- MODULE SeriesDeriv ----------------------------
(* The derivative of a tabulated series: at every point the slope of the      *)
(* polynomial through the order + 1 points closest to it (as many on either   *)
(* side as the series has). Weights are fractions <<numerator, denominator>>. *)
EXTENDS Integers, Sequences, SequencesExt
Prod(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
(* the points a derivative at i uses *)
First(n, order, i) == LET lo == i - (order \div 2) IN IF lo < 1 THEN 1 ELSE IF lo > n - order THEN n - order ELSE lo
Window(xs, order, i) == SubSeq(xs, First(Len(xs), order, i), First(Len(xs), order, i) + order)
Others(p, S) == SelectSeq([m \in 1..Len(p) |-> m], LAMBDA m : m \notin S)
(* slope at p[i] of the polynomial which is 1 at p[j] and 0 at the other points of p *)
Num(p, i, j) == Prod([k \in 1..Len(Others(p, {i, j})) |-> p[i] - p[Others(p, {i, j})[k]]])
Den(p, j) == Prod([k \in 1..Len(p) - 1 |-> p[j] - p[Others(p, {j})[k]]])
(* for j = i the slope is the sum of the inverse distances to the other points *)
Gaps(p, i) == [k \in 1..Len(p) - 1 |-> p[i] - p[Others(p, {i})[k]]]
=============================================================================

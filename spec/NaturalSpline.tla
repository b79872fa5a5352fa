-------------------------- MODULE NaturalSpline --------------------------
(* Interpolation in one dimension over integer nodes: bracketing, the linear *)
(* rule and the natural cubic spline. Nodes ascend strictly.                 *)
EXTENDS Integers, Sequences, SequencesExt
Norm(x) == x
LA == INSTANCE MatrixAlg
Inside(xs, x) == x >= xs[1] /\ x <= xs[Len(xs)]
Bracket(xs, x) == CHOOSE i \in 1..Len(xs) - 1 : xs[i] <= x /\ x <= xs[i + 1]
H(xs, i) == xs[i + 1] - xs[i]
(* Spline law: the second derivatives ms of a natural spline through (xs, ys): *)
(* both ends vanish and the first derivative is continuous at inner node i;    *)
(* both sides of the equation, multiplied by the two widths                    *)
LawLeft(xs, ms, i)  == H(xs, i - 1) * H(xs, i) *
                       ((H(xs, i - 1) * ms[i - 1]) + (2 * (H(xs, i - 1) + H(xs, i)) * ms[i]) + (H(xs, i) * ms[i + 1]))
LawRight(xs, ys, i) == 6 * (((ys[i + 1] - ys[i]) * H(xs, i - 1)) - ((ys[i] - ys[i - 1]) * H(xs, i)))
(* Values at x, between nodes i and i+1, times 6h (order 0 and 1), h (2 and 3) *)
(* with y and m in the same units                                              *)
Val6h(xs, ys, ms, i, x) ==
    LET h == H(xs, i)  p == xs[i + 1] - x  q == x - xs[i]
    IN  (6 * ((p * ys[i]) + (q * ys[i + 1]))) + (((p * p * p) - (p * h * h)) * ms[i]) + (((q * q * q) - (q * h * h)) * ms[i + 1])
Der6h(xs, ys, ms, i, x) ==
    LET h == H(xs, i)  p == xs[i + 1] - x  q == x - xs[i]
    IN  (6 * (ys[i + 1] - ys[i])) + (((h * h) - (3 * p * p)) * ms[i]) + (((3 * q * q) - (h * h)) * ms[i + 1])
Second(xs, ms, i, x) == ((xs[i + 1] - x) * ms[i]) + ((x - xs[i]) * ms[i + 1])
Third(ms, i) == ms[i + 1] - ms[i]
-----------------------------------------------------------------------------
(* Exact solution for nodes whose widths divide W: ms[i] = Num[i] / Den        *)
Sys(xs) == [i \in 1..Len(xs) - 2 |-> [j \in 1..Len(xs) - 2 |->
               CASE j = i - 1 -> H(xs, i) [] j = i -> 2 * (H(xs, i) + H(xs, i + 1)) [] j = i + 1 -> H(xs, i + 1) [] OTHER -> 0]]
Rhs(xs, ys, W) == [i \in 1..Len(xs) - 2 |-> 6 * (((W \div H(xs, i + 1)) * (ys[i + 2] - ys[i + 1])) - ((W \div H(xs, i)) * (ys[i + 1] - ys[i])))]
With(a, j, r) == [i \in 1..Len(a) |-> [k \in 1..Len(a) |-> IF k = j THEN r[i] ELSE a[i][k]]]
Den(xs, W) == IF Len(xs) = 2 THEN 1 ELSE W * LA!Det(Sys(xs))
Nums(xs, ys, W) == IF Len(xs) = 2 THEN <<0, 0>>
                   ELSE <<0>> \o [j \in 1..Len(xs) - 2 |-> LA!Det(With(Sys(xs), j, Rhs(xs, ys, W)))] \o <<0>>
Scaled(s, k) == [i \in 1..Len(s) |-> s[i] * k]
(* num/den to the nearest 1/4096 (den > 0) *)
Fixed(num, den) == LET q == num \div den  r == num % den
                       a == (r * 64) \div den  b == (r * 64) % den
                   IN  (q * 4096) + (a * 64) + (((b * 64) + (den \div 2)) \div den)
(* the natural spline through (xs, ys) at x, in 1/4096 *)
SplineFixed(xs, ys, W, x) ==
    LET i == Bracket(xs, x)  d == Den(xs, W)
    IN  Fixed(Val6h(xs, Scaled(ys, d), Nums(xs, ys, W), i, x), 6 * H(xs, i) * d)
Cardinal(n, j) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
(* value at x = sum of these weights (in 1/4096) times the tabulated values *)
CubicWeights(xs, W, x) == [j \in 1..Len(xs) |-> SplineFixed(xs, Cardinal(Len(xs), j), W, x)]
=============================================================================

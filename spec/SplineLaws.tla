---------------------------- MODULE SplineLaws ----------------------------
(* Design model of the 1D interpolators: node search from an arbitrary guess *)
(* (whatever was evaluated before), natural spline by exact elimination, and *)
(* the laws the recorded splines are judged by.                              *)
EXTENDS NaturalSpline, TLC
CONSTANTS MaxNodes, Widths, Values
VARIABLES xs, ys, x, lo, hi, guess
vars == <<xs, ys, x, lo, hi, guess>>
W == 4
RECURSIVE Nodes(_, _)
Nodes(ws, k) == IF k = 0 THEN <<0>> ELSE LET r == Nodes(ws, k - 1) IN Append(r, r[Len(r)] + ws[k])
Init == /\ \E n \in 2..MaxNodes : /\ \E ws \in [1..n - 1 -> Widths] : xs = Nodes(ws, n - 1)
                                  /\ ys \in [1..n -> Values]
        /\ x \in 0..xs[Len(xs)] /\ lo = 1 /\ hi = Len(xs) /\ guess \in 0..Len(xs)
(* a good guess ends the search at once, otherwise bisection *)
Guess  == guess > 0 /\ guess < Len(xs) /\ xs[guess] <= x /\ x <= xs[guess + 1]
          /\ lo' = guess /\ hi' = guess + 1 /\ guess' = 0 /\ UNCHANGED <<xs, ys, x>>
Ignore == guess > 0 /\ ~(guess < Len(xs) /\ xs[guess] <= x /\ x <= xs[guess + 1]) /\ guess' = 0 /\ UNCHANGED <<xs, ys, x, lo, hi>>
Bisect == /\ guess = 0 /\ hi - lo > 1
          /\ LET mid == (lo + hi) \div 2 IN IF x >= xs[mid] THEN lo' = mid /\ hi' = hi ELSE hi' = mid /\ lo' = lo
          /\ UNCHANGED <<xs, ys, x, guess>>
Next == Guess \/ Ignore \/ Bisect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Found == guess = 0 /\ hi - lo = 1
D == Den(xs, W)
Ms == Nums(xs, ys, W)                \* second derivatives, in 1/D
Yd == Scaled(ys, D)
Brackets == Found => xs[lo] <= x /\ x <= xs[hi]
AnyPiece == Found => Val6h(xs, Yd, Ms, lo, x) * H(xs, Bracket(xs, x)) = Val6h(xs, Yd, Ms, Bracket(xs, x), x) * H(xs, lo)
Law      == Found => D > 0 /\ Ms[1] = 0 /\ Ms[Len(xs)] = 0 /\ \A i \in 2..Len(xs) - 1 : LawLeft(xs, Ms, i) = LawRight(xs, Yd, i)
AtNodes  == Found => \A i \in 1..Len(xs) : SplineFixed(xs, ys, W, xs[i]) = 4096 * ys[i]
Smooth   == Found => \A i \in 2..Len(xs) - 1 : Der6h(xs, Yd, Ms, i - 1, xs[i]) * H(xs, i) = Der6h(xs, Yd, Ms, i, xs[i]) * H(xs, i - 1)
Linear   == Found => \E a \in {0, 1} : LET line == [i \in 1..Len(xs) |-> (a * xs[i]) - 1]
                                        IN  SplineFixed(xs, line, W, x) = 4096 * ((a * x) - 1)
RECURSIVE WSum(_, _, _)
WSum(w, v, k) == IF k = 0 THEN 0 ELSE WSum(w, v, k - 1) + (w[k] * v[k])
Superposes == Found => LET d == WSum(CubicWeights(xs, W, x), ys, Len(xs)) - SplineFixed(xs, ys, W, x) IN d <= 8 /\ d >= -8
Ends == <>Found
=============================================================================

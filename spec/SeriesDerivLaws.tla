-------------------------- MODULE SeriesDerivLaws --------------------------
(* What the weights of SeriesDeriv amount to, for every spacing of the points *)
(* (increasing or decreasing): the derivative is exact for polynomials up to  *)
(* the order, and on even spacing it is the textbook difference.              *)
EXTENDS SeriesDeriv, TLC
CONSTANTS Steps, Orders
VARIABLES pts, order, flip
Init == order \in Orders /\ flip \in {-1, 1} /\ pts = <<0>>
Grow == /\ Len(pts) < order + 1 /\ UNCHANGED <<order, flip>>
        /\ \E s \in Steps : pts' = Append(pts, pts[Len(pts)] + (flip * s))
Spec == Init /\ [][Grow]_<<pts, order, flip>>
Full == Len(pts) = order + 1
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Lcm == FoldLeft(LAMBDA a, k : a * FoldLeft(LAMBDA b, m : b * (pts[m] - pts[k]), 1, [m \in 1..Len(pts) - k |-> m + k]), 1, [k \in 1..Len(pts) |-> k])
(* every weight over the common denominator of all differences *)
Over(i, j) == IF i = j THEN Sum([k \in 1..Len(pts) - 1 |-> Lcm \div Gaps(pts, i)[k]]) ELSE Num(pts, i, j) * (Lcm \div Den(pts, j))
(* in powers of the distance to the point: the slope of x^k is 1 for k = 1, else 0 *)
Exact == Full => \A i \in 1..Len(pts) : \A k \in 0..order :
            Sum([j \in 1..Len(pts) |-> Over(i, j) * Pow(pts[j] - pts[i], k)]) = IF k = 1 THEN Lcm ELSE 0
(* textbook differences (times 2 or 12 steps) on even spacing *)
Even == \A i \in 1..Len(pts) - 1 : pts[i + 1] - pts[i] = pts[2] - pts[1]
Rows == IF order = 2 THEN <<<<-3, 4, -1>>, <<-1, 0, 1>>, <<1, -4, 3>>>>
        ELSE <<<<-25, 48, -36, 16, -3>>, <<-3, -10, 18, -6, 1>>, <<1, -8, 0, 8, -1>>, <<-1, 6, -18, 10, 3>>, <<3, -16, 36, -48, 25>>>>
Textbook == (Full /\ Even) => \A i, j \in 1..Len(pts) :
               Over(i, j) * (IF order = 2 THEN 2 ELSE 12) * (pts[2] - pts[1]) = Lcm * Rows[i][j]
(* the points used are the order + 1 closest in index, always order + 1 of them *)
Windows == \A n \in order + 1..order + 6 : \A i \in 1..n :
              LET lo == First(n, order, i) IN lo >= 1 /\ lo + order <= n /\ lo <= i /\ i <= lo + order
                  /\ (i > order \div 2 /\ i <= n - (order \div 2) => lo = i - (order \div 2))
=============================================================================

---------------------------- MODULE Smoothing ----------------------------
(* Design model of Kernel.ConvolveAt: the left edge, the interior and the    *)
(* right edge are swept one after another, each with its own index rules;    *)
(* together they are the convolution of the extended series.                 *)
EXTENDS SeriesEdge, SequencesExt, FiniteSets, TLC
CONSTANTS MaxHalf, MaxLen, Values, Weights
Ws == {-1, 1, 2}
Wd == {-1, 2}
VARIABLES xs, ws, b, i, out
vars == <<xs, ws, b, i, out>>
C == Len(ws) \div 2
n == Len(xs)
Init == /\ \E c \in 0..MaxHalf : ws \in [1..(2 * c) + 1 -> Weights]
        /\ \E k \in Len(ws)..MaxLen : xs \in [1..k -> Values]
        /\ b \in Boundaries /\ i = 0 /\ out = <<>>
RECURSIVE Sum(_, _)
Sum(v(_), j) == IF j = 0 THEN 0 ELSE Sum(v, j - 1) + v(j)
Left(j)  == LET idx == i + j - 1 - C
            IN  ws[j] * (IF idx >= 0 THEN xs[idx + 1]
                         ELSE CASE b = "periodic" -> xs[n + idx + 1] [] b = "reflection" -> xs[-idx + 1]
                                [] b = "zero" -> 0 [] b = "extension" -> xs[1])
Mid(j)   == ws[j] * xs[i + j - 1 - C + 1]
Right(j) == LET idx == i + j - 1 - C
            IN  ws[j] * (IF idx < n THEN xs[idx + 1]
                         ELSE CASE b = "periodic" -> xs[idx - n + 1] [] b = "reflection" -> xs[(2 * (n - 1)) - idx + 1]
                                [] b = "zero" -> 0 [] b = "extension" -> xs[n])
Step(v(_)) == out' = Append(out, Sum(v, Len(ws))) /\ i' = i + 1 /\ UNCHANGED <<xs, ws, b>>
SweepLeft  == i <= C /\ Step(Left)
SweepMid   == i > C /\ i < n - C /\ Step(Mid)
SweepRight == i > C /\ i >= n - C /\ i < n /\ Step(Right)
Next == SweepLeft \/ SweepMid \/ SweepRight
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Total(s) == LET v(j) == s[j] IN Sum(v, Len(s))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Turned(s) == [k \in 1..Len(s) |-> s[(k % Len(s)) + 1]]
Done == i = n
IsConvolution == Done => out = Convolved(ws, b, xs)
KeepsConstants == (Done /\ b # "zero" /\ \A k \in 1..n : xs[k] = xs[1]) => \A k \in 1..n : out[k] = Total(ws) * xs[1]
PeriodicShift == (Done /\ b = "periodic") => Convolved(ws, b, Turned(xs)) = Turned(out) /\ Total(out) = Total(ws) * Total(xs)
Mirrored == Done => Convolved(Rev(ws), b, Rev(xs)) = Rev(out)
Interior == Done => \A c \in Boundaries : \A k \in 1..n : (k > C /\ k <= n - C) => Convolved(ws, c, xs)[k] = out[k]
=============================================================================

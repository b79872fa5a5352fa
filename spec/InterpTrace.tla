--------------------------- MODULE InterpTrace ---------------------------
(* Recorded interpolators against NaturalSpline: the state is the table each *)
(* object was made from, and every answer must follow from it alone.         *)
(* Outputs in 1/16384 (one dimension) or 1/4096.                             *)
EXTENDS NaturalSpline, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Slots == {"a", "b", "c", "d"}
VARIABLES tab, l
TraceInit == l = 1 /\ tab = [o \in Slots |-> 0]
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ E.outcome = "ok" /\ E.kept /\ l' = l + 1
S == 16384
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Up(s) == s[1] < s[Len(s)]
Asc(s) == IF Up(s) THEN s ELSE Rev(s)
Sorted(s) == (\A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]) \/ (\A i \in 1..Len(s) - 1 : s[i] >= s[i + 1])
T == Trace[tab[E.o]]
Size(ax) == FoldSeq(LAMBDA s, acc : acc * Len(s), 1, ax)
(* the tabulated value at grid indices ix (from 1, ascending nodes) *)
Flat(t, ix) == LET j == [a \in 1..Len(ix) |-> IF Up(t.ax[a]) THEN ix[a] - 1 ELSE Len(t.ax[a]) - ix[a]]
                   n == [a \in 1..Len(ix) |-> Len(t.ax[a])]
               IN  t.vals[1 + j[1] + (IF Len(ix) > 1 THEN n[1] * (j[2] + (IF Len(ix) > 2 THEN n[2] * j[3] ELSE 0)) ELSE 0)]
Inner(t, x) == \A a \in 1..Len(t.ax) : Inside(Asc(t.ax[a]), x[a])
LinearKinds == {"linear", "bilinear", "trilinear"}
CubicKinds  == {"bicubic", "tricubic"}
-----------------------------------------------------------------------------
(* multilinear: weights of the two nodes around x are the opposite distances *)
LinOK(t, x, out) ==
    \A ns \in {[a \in 1..Len(x) |-> Asc(t.ax[a])]} :
    \A i \in {[a \in 1..Len(x) |-> Bracket(ns[a], x[a])]} :
       LET Wt(a, k) == IF k = 0 THEN ns[a][i[a] + 1] - x[a] ELSE x[a] - ns[a][i[a]]
           Vol == FoldSeq(LAMBDA a, acc : acc * H(ns[a], i[a]), 1, [a \in 1..Len(x) |-> a])
           Term(c) == FoldSeq(LAMBDA a, acc : acc * Wt(a, c[a]), 1, [a \in 1..Len(x) |-> a]) * Flat(t, [a \in 1..Len(x) |-> i[a] + c[a]])
           Sum == CASE Len(x) = 1 -> Term(<<0>>) + Term(<<1>>)
                    [] Len(x) = 2 -> Term(<<0, 0>>) + Term(<<0, 1>>) + Term(<<1, 0>>) + Term(<<1, 1>>)
                    [] Len(x) = 3 -> Term(<<0, 0, 0>>) + Term(<<0, 0, 1>>) + Term(<<0, 1, 0>>) + Term(<<0, 1, 1>>)
                                     + Term(<<1, 0, 0>>) + Term(<<1, 0, 1>>) + Term(<<1, 1, 0>>) + Term(<<1, 1, 1>>)
       IN  Near(out * Vol, (IF Len(x) = 1 THEN S ELSE 4096) * Sum, Vol + 1)
(* splines along the last axis, then along the one before, then along x *)
Round(v) == (v + 2048) \div 4096
RECURSIVE DotW(_, _, _)
DotW(w, v, n) == IF n = 0 THEN 0 ELSE DotW(w, v, n - 1) + (w[n] * v[n])
CubOK(t, x, out) ==
    \A ns \in {[a \in 1..Len(x) |-> Asc(t.ax[a])]} :
    \A w \in {[a \in 1..Len(x) |-> CubicWeights(ns[a], 4, x[a])]} :
       LET n(a) == Len(ns[a])
           C1(j, k) == DotW(w[1], [i \in 1..n(1) |-> Flat(t, IF Len(x) = 2 THEN <<i, j>> ELSE <<i, j, k>>)], n(1))
           C2(k) == Round(DotW(w[2], [j \in 1..n(2) |-> C1(j, k)], n(2)))
           V == IF Len(x) = 2 THEN C2(1) ELSE Round(DotW(w[3], [k \in 1..n(3) |-> C2(k)], n(3)))
       IN  Near(out, V, IF Len(x) = 2 THEN 60 ELSE 160)
-----------------------------------------------------------------------------
Ms(t) == IF Up(t.ax[1]) THEN t.m2 ELSE Rev(t.m2)
Ys(t) == [i \in 1..Len(t.vals) |-> S * (IF Up(t.ax[1]) THEN t.vals[i] ELSE t.vals[Len(t.vals) + 1 - i])]
(* the recorded second derivatives are those of the natural spline *)
SplineLaw(t) ==
    \A xs \in {Asc(t.ax[1])} : \A ms \in {Ms(t)} : \A ys \in {[i \in 1..Len(t.vals) |-> Ys(t)[i] \div S]} :
       /\ Len(ms) = Len(xs) /\ Near(ms[1], 0, 1) /\ Near(ms[Len(ms)], 0, 1)
       /\ \A i \in 2..Len(xs) - 1 :
             Near((H(xs, i - 1) * ms[i - 1]) + (2 * (H(xs, i - 1) + H(xs, i)) * ms[i]) + (H(xs, i) * ms[i + 1]),
                  (S * LawRight(xs, ys, i)) \div (H(xs, i - 1) * H(xs, i)), 2 + 3 * (H(xs, i - 1) + H(xs, i)))
SplineOK(t, x, k, out) ==
    \A xs \in {Asc(t.ax[1])} : \A ms \in {Ms(t)} : \A ys \in {Ys(t)} :
       \E i \in {j \in 1..Len(xs) - 1 : xs[j] <= x /\ x <= xs[j + 1]} :
          \A h \in {H(xs, i)} :
             CASE k = 0 -> Near(out * 6 * h, Val6h(xs, ys, ms, i, x), 12 * h + h * h * h)
               [] k = 1 -> Near(out * 6 * h, Der6h(xs, ys, ms, i, x), 12 * h + 4 * h * h)
               [] k = 2 -> Near(out * h, Second(xs, ms, i, x), 2 * h)
               [] k = 3 -> Near(out * h, Third(ms, i), h + 2)
               [] OTHER -> out = 0
(* pieces are cubic, so Simpson's rule is exact; nodes and bounds are even *)
Val(xs, ys, ms, x) == \* rounded
    LET i == Bracket(xs, x)  d == 6 * H(xs, i) IN (Val6h(xs, ys, ms, i, x) + (d \div 2)) \div d
RECURSIVE Pieces(_, _, _, _, _, _)
Pieces(xs, ys, ms, a, b, i) ==
    IF i = 0 THEN 0
    ELSE LET p == IF a > xs[i] THEN a ELSE xs[i]
             q == IF b < xs[i + 1] THEN b ELSE xs[i + 1]
         IN  Pieces(xs, ys, ms, a, b, i - 1)
             + (IF p >= q THEN 0
                ELSE (q - p) * (Val(xs, ys, ms, p) + 4 * Val(xs, ys, ms, (p + q) \div 2) + Val(xs, ys, ms, q)))
IntegOK(t, a, b, out) ==
    \A xs \in {Asc(t.ax[1])} : \A ms \in {Ms(t)} : \A ys \in {Ys(t)} :
       LET lo == IF a < b THEN a ELSE b  hi == IF a < b THEN b ELSE a
       IN  Near((IF a <= b THEN out ELSE -out) * 6, Pieces(xs, ys, ms, lo, hi, Len(xs) - 1), 6 + 30 * (hi - lo))
-----------------------------------------------------------------------------
Base(k) == CASE k = "ulinear" -> "linear" [] k = "ubilinear" -> "bilinear" [] k = "utrilinear" -> "trilinear"
             [] k = "ubicubic" -> "bicubic" [] k = "utricubic" -> "tricubic" [] OTHER -> k
Makeable == /\ Size(E.ax) = Len(E.vals)
            /\ (E.kind \in {"spline", "bicubic", "tricubic"}) => \A a \in 1..Len(E.ax) : Sorted(E.ax[a])
            /\ \A a \in 1..Len(E.ax) : Len(E.ax[a]) >= 2
(* a spline is reinitialised with as many points as it had *)
New == /\ Is("new") /\ Makeable /\ (E.kind = "spline" => SplineLaw(E) = TRUE)
       /\ (E.reinit => tab[E.o] # 0 /\ Len(T.vals) = Len(E.vals))
       /\ tab' = [tab EXCEPT ![E.o] = l]
NewRefused == /\ l <= Len(Trace) /\ E.e = "new" /\ E.outcome \in {"panic", "err"} /\ l' = l + 1
              /\ (~Makeable \/ (E.reinit /\ Len(T.vals) # Len(E.vals))) = TRUE /\ UNCHANGED tab
AnswerOK(t, x, out) == LET k == Base(t.kind)
                       IN  CASE k \in LinearKinds -> LinOK(t, x, out)
                             [] k \in CubicKinds -> CubOK(t, x, out)
                             [] k = "spline" -> SplineOK(t, x[1], 0, out)
Eval == /\ Is("eval") /\ tab[E.o] # 0 /\ UNCHANGED tab /\ Len(E.out) = Len(E.pts)
        /\ (\A i \in 1..Len(E.pts) : Inner(T, E.pts[i]) /\ AnswerOK(T, E.pts[i], E.out[i])) = TRUE
Deriv == Is("deriv") /\ UNCHANGED tab /\ (Inner(T, <<E.x>>) /\ SplineOK(T, E.x, E.k, E.out)) = TRUE
Integ == Is("integ") /\ UNCHANGED tab /\ (Inner(T, <<E.lo>>) /\ Inner(T, <<E.hi>>) /\ IntegOK(T, E.lo, E.hi, E.out)) = TRUE
Outside == CASE E.e = "eval" -> \E i \in 1..Len(E.pts) : ~Inner(T, E.pts[i])
             [] E.e = "deriv" -> ~Inner(T, <<E.x>>)
             [] E.e = "integ" -> ~Inner(T, <<E.lo>>) \/ ~Inner(T, <<E.hi>>)
Refused == /\ l <= Len(Trace) /\ E.e \in {"eval", "deriv", "integ"} /\ E.outcome \in {"panic", "err"} /\ l' = l + 1
           /\ (Outside = TRUE) /\ UNCHANGED tab
RECURSIVE Tri(_, _, _, _, _)
Tri(as, bs, cs, xs, i) == (bs[i] * xs[i]) + (IF i > 1 THEN as[i] * xs[i - 1] ELSE 0) + (IF i < Len(bs) THEN cs[i] * xs[i + 1] ELSE 0)
TriDiag == /\ Is("tridiag") /\ UNCHANGED tab /\ Len(E.out) = Len(E.x)
           /\ \A i \in 1..Len(E.x) : E.rs[i] = Tri(E.as, E.bs, E.cs, E.x, i) /\ Near(E.out[i], S * E.x[i], 2)
Fresh == l <= Len(Trace) /\ E.e = "fresh" /\ l' = l + 1 /\ tab' = [o \in Slots |-> 0]
TraceNext == Fresh \/ New \/ NewRefused \/ Eval \/ Deriv \/ Integ \/ Refused \/ TriDiag
TraceSpec == TraceInit /\ [][TraceNext]_<<tab, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

-------------------------- MODULE SmoothingTrace --------------------------
(* Recorded kernels and convolutions. A kernel is known by its response to a *)
(* single impulse, which its family's laws constrain; every convolution with *)
(* it must then be the one of SeriesEdge. Outputs are in units of 2^-sc.     *)
EXTENDS SeriesEdge, SequencesExt, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Names == {"a", "b", "c"}
VARIABLES kern, l
TraceInit == l = 1 /\ kern = [k \in Names |-> 0]
E == Trace[l]
Is(nm) == l <= Len(Trace) /\ E.e = nm /\ E.outcome = "ok" /\ l' = l + 1
Abs(x) == IF x < 0 THEN -x ELSE x
Unit == 2 ^ E.sc
Near(x, y, tol) == Abs(x - y) <= tol
W == E.w
Half == E.width \div 2
X(j) == j - 1 - Half
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE Total(s, k - 1) + s[k]
RECURSIVE Pw(_, _)
Pw(x, k) == IF k = 0 THEN 1 ELSE x * Pw(x, k - 1)
RECURSIVE MomentOf(_, _, _)
MomentOf(ws, q, j) == IF j = 0 THEN 0 ELSE MomentOf(ws, q, j - 1) + (ws[j] * Pw(X(j), q))
RECURSIVE AbsMoment(_, _)
AbsMoment(q, j) == IF j = 0 THEN 0 ELSE AbsMoment(q, j - 1) + Pw(Abs(X(j)), q)
RECURSIVE Diff(_, _)
Diff(s, k) == IF k = 0 THEN s ELSE Diff([j \in 1..Len(s) - 1 |-> s[j + 1] - s[j]], k - 1)
Coarse(ws) == [j \in 1..Len(ws) |-> (ws[j] + 2 ^ (E.sc - 13)) \div (2 ^ (E.sc - 12))]    \* units of 2^-12
SumsToOne == Near(Total(W, Len(W)), Unit, Len(W))
Symmetric == \A j \in 1..Len(W) : Near(W[j], W[Len(W) + 1 - j], 1)
Tophat == SumsToOne /\ \A j \in 1..Len(W) : Near(W[j] * Len(W), Unit, Len(W))
(* sigma was chosen so that neighbouring weights go as 2^-(e4 j^2 / 4) *)
Gauss == /\ SumsToOne /\ Symmetric
         /\ \A j \in Half + 1..Len(W) :
               \A e \in {E.e4 * X(j) * X(j)} :
                  /\ e % 4 = 0 => Near(W[j], IF e > 96 THEN 0 ELSE W[Half + 1] \div (2 ^ (e \div 4)), 2)
                  /\ j > Half + 1 => W[j] <= W[j - 1] + 1
(* dx is 2^dx2, the d-th derivative of x^d is d!/dx^d *)
SavGol == LET want == IF E.dx2 * E.d <= 0 THEN Fact(E.d) * (2 ^ (-E.dx2 * E.d)) * 4096
                      ELSE (Fact(E.d) * 4096) \div (2 ^ (E.dx2 * E.d))
          IN /\ \A c \in {Coarse(W)} :
                   \A q \in 0..E.p : Near(MomentOf(c, q, Len(W)), IF q = E.d THEN want ELSE 0, 2 + AbsMoment(q, Len(W)))
             /\ \A ds \in {Diff(W, E.p + 1)} : \A j \in 1..Len(ds) : Near(ds[j], 0, 2 ^ (E.p + 2))
             /\ E.d = 0 => SumsToOne
Kernel == /\ Is("kernel") /\ Len(E.w) = E.width
          /\ CASE E.kind = "tophat" -> Tophat [] E.kind = "gauss" -> Gauss [] OTHER -> SavGol
          /\ kern' = [kern EXCEPT ![E.k] = l]
K == Trace[kern[E.k]]
SumAbs(xs) == FoldSeq(LAMBDA v, acc : acc + Abs(v), 0, xs)
Conv == /\ Is("conv") /\ kern[E.k] # 0 /\ E.kept /\ UNCHANGED kern
        /\ Len(E.xs) >= Len(K.w) /\ Len(E.out) = Len(E.xs)
        /\ \A k \in {K.w} : \A tol \in {2 + (E.big * Len(K.w)) \div 2} :
              \A i \in 1..Len(E.xs) : Near(E.out[i], At(k, E.b, E.xs, i - 1), tol)
(* a window however wide reproduces polynomials up to its order              *)
Wide == /\ Is("wide") /\ UNCHANGED kern /\ Len(E.xs) >= E.width /\ Len(E.out) = Len(E.xs) - 2 * Half
        /\ \A d \in {Diff(E.xs, E.p + 1)} : \A j \in 1..Len(d) : d[j] = 0
        /\ \A big \in {FoldSeq(LAMBDA v, m : IF Abs(v) > m THEN Abs(v) ELSE m, 0, E.xs)} :
              \A tol \in {1 + (big * (2 ^ E.sc)) \div (2 ^ 18)} :
                 \A j \in 1..Len(E.out) : Near(E.out[j], E.xs[j + Half] * (2 ^ E.sc), tol)
Get  == Is("get") /\ UNCHANGED kern /\ E.out = Ext(E.b, E.xs, E.i)
Fits == /\ E.width % 2 = 1
        /\ E.kind \in {"savgol", "deriv"} => E.p < E.width
        /\ E.kind = "deriv" => E.d <= E.p
Refused == l <= Len(Trace) /\ E.outcome \in {"panic", "err"} /\ l' = l + 1 /\ E.e = "kernel" /\ ~Fits /\ UNCHANGED kern
Fresh == Is("fresh") /\ kern' = [k \in Names |-> 0]
TraceNext == Fresh \/ (Kernel /\ Fits) \/ Conv \/ Wide \/ Get \/ Refused
TraceSpec == TraceInit /\ [][TraceNext]_<<kern, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

-------------------------- MODULE SeriesDerivTrace --------------------------
(* Recorded derivatives of series against SeriesDeriv, in 1/4096.             *)
EXTENDS SeriesDeriv, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == l = 1
E == Trace[l]
S == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
(* rounded fractions; the sign goes on top *)
Frac(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
Slope(p, q, i) ==
    FoldLeft(LAMBDA acc, j : acc + IF i = j THEN FoldLeft(LAMBDA a, g : a + Frac(S * q[i], g), 0, Gaps(p, i))
                                            ELSE Frac(S * q[j] * Num(p, i, j), Den(p, j)), 0, [j \in 1..Len(p) |-> j])
Right(e) == /\ Len(e.out) = Len(e.xs)
            /\ \A i \in 1..Len(e.xs) :
                 LET lo == First(Len(e.xs), e.order, i)
                 IN  Abs(e.out[i] - Slope(SubSeq(e.xs, lo, lo + e.order), SubSeq(e.ys, lo, lo + e.order), i - lo + 1)) <= 12
Asked == /\ E.order \in {2, 4} /\ Len(E.xs) = Len(E.ys) /\ Len(E.xs) > E.order /\ E.into \in {-1, Len(E.xs)}
Deriv == /\ l <= Len(Trace) /\ E.e = "deriv" /\ E.outcome = "ok" /\ l' = l + 1
         /\ Asked /\ E.kept /\ E.old /\ Right(E) = TRUE
Refused == /\ l <= Len(Trace) /\ E.e = "deriv" /\ E.outcome \in {"panic", "err"} /\ l' = l + 1 /\ ~Asked
TraceNext == Deriv \/ Refused
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

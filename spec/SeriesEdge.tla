---------------------------- MODULE SeriesEdge ----------------------------
(* Series extended beyond their ends, and their convolution with a kernel of *)
(* 2c+1 weights. Series and kernels are sequences; i counts from 0.          *)
EXTENDS Integers, Sequences
Boundaries == {"periodic", "reflection", "zero", "extension"}
(* the series xs continued to index i, at most one length beyond its ends *)
Ext(b, xs, i) ==
    LET n == Len(xs)
    IN  IF i >= 0 /\ i < n THEN xs[i + 1]
        ELSE CASE b = "periodic"   -> xs[(i % n) + 1]
               [] b = "reflection" -> IF i < 0 THEN xs[-i + 1] ELSE xs[(2 * (n - 1)) - i + 1]
               [] b = "zero"       -> 0
               [] b = "extension"  -> IF i < 0 THEN xs[1] ELSE xs[n]
RECURSIVE Weighted(_, _, _, _, _)
Weighted(ws, b, xs, i, j) == IF j = 0 THEN 0
                             ELSE Weighted(ws, b, xs, i, j - 1) + (ws[j] * Ext(b, xs, i + j - 1 - (Len(ws) \div 2)))
At(ws, b, xs, i) == Weighted(ws, b, xs, i, Len(ws))
Convolved(ws, b, xs) == [i \in 1..Len(xs) |-> At(ws, b, xs, i - 1)]
=============================================================================

---------------------------- MODULE PipelineDefs ----------------------------
(* Where the samples of an element of the particle lattice may fall: shared by the model  *)
(* Pipeline (one dimension) and by PipelineTrace (three).  Coordinates are integers        *)
(* modulo B; a pixel is B \div P wide.                                                     *)
EXTENDS Integers, FiniteSets, Sequences

Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Most(S) == CHOOSE a \in S : \A b \in S : a >= b

\* displacement from a to b, the shorter way round
Rel(B, a, b) == ((b - a + (B \div 2)) % B) - (B \div 2)

\* the interval spanned by the coordinates xs (a set), all within half a box of each other
Interval(B, xs) == LET a == CHOOSE x \in xs : TRUE
                       rs == {Rel(B, a, x) : x \in xs}
                   IN <<a + Least(rs), a + Most(rs)>>

\* the pixels a sample of an element that spans iv may fall into, with a margin
Touch(B, P, iv, margin) == LET cw == B \div P
                               lo == (iv[1] - margin) \div cw
                               hi == (iv[2] + margin) \div cw
                           IN IF hi - lo >= P - 1 THEN 0..(P - 1) ELSE {i % P : i \in lo..hi}

\* sites of the lattice of n sites a side that bound element a (read with stride k)
Ends(n, k, a) == {(a * k) % n, ((a + 1) * k) % n}

\* the cells (of width n \div c sites) in which the element lies
CellOf(n, c, k, a) == (a * k) \div (n \div c)
=============================================================================

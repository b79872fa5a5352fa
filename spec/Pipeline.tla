------------------------------ MODULE Pipeline ------------------------------
(* The whole pipeline on a ring: a snapshot of N particles (any order) is cut into C       *)
(* segments, each with the particle after its last one; every segment is rendered by some  *)
(* worker at some time onto P pixels with K samples per element, a stride of Skip; the     *)
(* samples are then binned by the number of samples in their pixel.  What is conserved at  *)
(* the end depends neither on C nor on the order.                                          *)
EXTENDS PipelineDefs
CONSTANTS N, B, P, K
VARIABLES pos, c, skip, pending, rendered, grid, hist
vars == <<pos, c, skip, pending, rendered, grid, hist>>

Divs(n) == {d \in 1..n : n % d = 0}
Sites == 0..(N - 1)
Elements == 0..((N \div skip) - 1)
IvOf(a) == Interval(B, {pos[j] : j \in Ends(N, skip, a)})
Narrow(p, k) == \A a \in 0..((N \div k) - 1) : \A i, j \in Ends(N, k, a) : 2 * Rel(B, p[i], p[j]) \in (1 - B)..(B - 1)

Init == /\ c \in Divs(N)
        /\ skip \in {k \in Divs(N) : (N \div c) % k = 0}
        /\ pos \in {p \in [Sites -> 0..(B - 1)] : Narrow(p, skip)}
        /\ pending = 0..(c - 1)                 \* snapshot not yet cut
        /\ rendered = {}
        /\ grid = [x \in 0..(P - 1) |-> 0]
        /\ hist = <<>>

\* the elements of a segment: those that start in it
Of(g) == {a \in Elements : CellOf(N, c, skip, a) = g}

\* one segment is read and rendered: each sample falls into some pixel its element touches
Render(g) ==
  /\ g \in pending
  /\ pending' = pending \ {g} /\ rendered' = rendered \cup {g}
  /\ \E f \in [Of(g) \X (1..K) -> 0..(P - 1)] :
       /\ \A x \in DOMAIN f : f[x] \in Touch(B, P, IvOf(x[1]), 0)
       /\ grid' = [x \in 0..(P - 1) |-> grid[x] + Cardinality({y \in DOMAIN f : f[y] = x})]
  /\ UNCHANGED <<pos, c, skip, hist>>

\* a full histogram: how many samples lie in pixels that hold v samples
Bin == /\ pending = {} /\ hist = <<>>
       /\ hist' = [v \in 0..(N * K) |-> v * Cardinality({x \in 0..(P - 1) : grid[x] = v})]
       /\ UNCHANGED <<pos, c, skip, pending, rendered, grid>>

Next == Bin \/ \E g \in 0..(c - 1) : Render(g)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i < 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)

Total == SumTo(grid, P - 1)
\* every element has been sampled once for every segment that is done, no matter which
Conserved == Total = K * Cardinality({a \in Elements : CellOf(N, c, skip, a) \in rendered})
Partition == \A a \in Elements : Cardinality({g \in 0..(c - 1) : a \in Of(g)}) = 1
AtEnd == pending = {} => Total = (K * N) \div skip
\* what PipelineTrace asks of every pixel, whatever the cutting
Bounds == pending = {} =>
  \A x \in 0..(P - 1) :
    /\ grid[x] >= K * Cardinality({a \in Elements : Touch(B, P, IvOf(a), 0) = {x}})
    /\ grid[x] <= K * Cardinality({a \in Elements : x \in Touch(B, P, IvOf(a), 0)})
HistTotal == hist # <<>> => SumTo(hist, N * K) = Total
Finishes == <>(hist # <<>>)
=============================================================================

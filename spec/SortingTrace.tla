--------------------------- MODULE SortingTrace ---------------------------
(* Every recorded call of math/sort must be a step of Sorting. *)
EXTENDS Sorting, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == l = 1 /\ data = <<>> /\ orig = <<>> /\ ret = <<>>

E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ E.outcome = "ok" /\ l' = l + 1
Settled == E.margins /\ orig' = E.xs /\ data' = E.after

InPlace(n, F(_)) == Is(n) /\ "large" \notin DOMAIN E /\ Settled /\ E.same
                    /\ data' = F(E.xs) /\ ret' = data' /\ E.ret = ret'
Sel(n, ok) == Is(n) /\ "large" \notin DOMAIN E /\ Settled /\ data' = E.xs /\ ret' = E.v /\ ok

N == IF l <= Len(Trace) /\ "large" \in DOMAIN E THEN E.large ELSE 0
M == IF l <= Len(Trace) /\ "large" \in DOMAIN E THEN E.a ELSE 0
(* A large collection: the shuffle i |-> (a*i) mod n of 0..n-1, whose sorted   *)
(* form and order statistics need no sorting.                                 *)
LargeIs(n) == Is(n) /\ "large" \in DOMAIN E /\ E.margins /\ orig' = <<>> /\ data' = <<>>
LargeInPlace(n, At(_, _, _)) ==
    /\ LargeIs(n) /\ E.same /\ ret' = <<>>
    /\ (\A after \in {E.after}, n1 \in {N}, m1 \in {M} : Len(after) = n1 /\ \A i \in 1..n1 : after[i] = At(i, n1, m1)) = TRUE
LargeSel(n, v) ==
    /\ LargeIs(n) /\ ret' = E.v /\ E.v = v
    /\ (\A after \in {E.after}, n1 \in {N}, m1 \in {M} : Len(after) = n1 /\ \A i \in 1..n1 : after[i] = (m1 * i) % n1) = TRUE
LargeMedian == LET n == N IN IF n % 2 = 1 THEN {n \div 2} ELSE {(n \div 2) - 1, n \div 2}

TraceNext ==
    \/ LET up(i, n, a) == i - 1 IN LargeInPlace("quick", up) \/ LargeInPlace("shell", up)
    \/ LET back(i, n, a) == (a * (n + 1 - i)) % n IN LargeInPlace("reverse", back)
    \/ LargeSel("nth", N - E.n)
    \/ \E m \in LargeMedian : LargeSel("median", m)
    \/ LargeSel("percentile", PctRank(N, E.pn, E.pd))
    \/ InPlace("quick", SortAsc)
    \/ InPlace("shell", SortAsc)
    \/ InPlace("reverse", Flip)
    \/ Sel("nth", E.v = KthLargest(E.xs, E.n) /\ IsKthLargest(E.xs, E.n, E.v))
    \/ Sel("median", IsMedian(E.xs, E.v))
    \/ Sel("percentile", E.v = Percentile(E.xs, E.pn, E.pd))

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

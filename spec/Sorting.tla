------------------------------ MODULE Sorting ------------------------------
(* C17.  The sorting and selection services: a caller owns one slice; every   *)
(* operation either rearranges that slice in place or reads an order          *)
(* statistic from it.  Values are integers (the driver scales by 4).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

VARIABLES data,   \* the caller's slice
          orig,   \* the slice as it was first handed in
          ret     \* the last value returned: a sequence or an order statistic

vars == <<data, orig, ret>>

SortAsc(xs) == SortSeq(xs, <)
Flip(xs)    == [i \in 1..Len(xs) |-> xs[Len(xs) + 1 - i]]
Count(xs, P(_)) == Cardinality({i \in DOMAIN xs : P(xs[i])})

(* k-th smallest (1-based), k-th largest (1-based) *)
KthSmallest(xs, k) == SortAsc(xs)[k]
KthLargest(xs, k)  == SortAsc(xs)[Len(xs) + 1 - k]

(* what an n-th largest element has to satisfy, stated without sorting *)
IsKthLargest(xs, k, v) ==
    LET gt(x) == x > v   ge(x) == x >= v
    IN  Count(xs, gt) < k /\ k <= Count(xs, ge)

(* the median: the middle element; for an even count anything from the lower  *)
(* middle element to the upper middle element                                 *)
IsMedian(xs, v) ==
    LET n == Len(xs)  s == SortAsc(xs)
    IN  IF n % 2 = 1 THEN v = s[(n + 1) \div 2]
        ELSE s[n \div 2] <= v /\ v <= s[n \div 2 + 1]

(* the p-th percentile, p = pn/pd: the element which floor(p*n) elements      *)
(* precede in ascending order (the largest element for p = 1)                 *)
PctRank(n, pn, pd) == LET r == (pn * n) \div pd IN IF r >= n THEN n - 1 ELSE r
Percentile(xs, pn, pd) == SortAsc(xs)[PctRank(Len(xs), pn, pd) + 1]

----------------------------------------------------------------------------
SortInPlace  == data' = SortAsc(data) /\ ret' = data' /\ UNCHANGED orig
ReverseInPlace == data' = Flip(data) /\ ret' = data' /\ UNCHANGED orig
SelectNth(k) == k \in 1..Len(data) /\ ret' = KthLargest(data, k) /\ UNCHANGED <<data, orig>>
SelectMedian == Len(data) > 0 /\ ret' \in {data[i] : i \in DOMAIN data} /\ IsMedian(data, ret')
                /\ UNCHANGED <<data, orig>>
SelectPct(pn, pd) == Len(data) > 0 /\ ret' = Percentile(data, pn, pd) /\ UNCHANGED <<data, orig>>

CONSTANTS Values, MaxLen, Denom
Inputs == UNION {[1..n -> Values] : n \in 0..MaxLen}
Init == data \in Inputs /\ orig = data /\ ret = <<>>
Next == \/ SortInPlace \/ ReverseInPlace
        \/ \E k \in 1..MaxLen : SelectNth(k)
        \/ SelectMedian
        \/ \E p \in 0..Denom : SelectPct(p, Denom)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Bag(xs) == [v \in {xs[i] : i \in DOMAIN xs} |-> LET eq(x) == x = v IN Count(xs, eq)]
(* no operation ever loses, duplicates or invents an element *)
Permutation == Bag(data) = Bag(orig)
(* laws connecting the operations *)
Laws == \A k \in 1..Len(data) :
            /\ IsKthLargest(data, k, KthLargest(data, k))
            /\ \A v \in Values : IsKthLargest(data, k, v) => v = KthLargest(data, k)
SortedLaw == LET s == SortAsc(data)
             IN  /\ \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]
                 /\ Bag(s) = Bag(data) /\ Flip(Flip(data)) = data
PctLaw == Len(data) > 0 =>
            /\ Percentile(data, 0, Denom) = Min({data[i] : i \in DOMAIN data})
            /\ Percentile(data, Denom, Denom) = Max({data[i] : i \in DOMAIN data})
            /\ \A p \in 0..Denom - 1 : Percentile(data, p, Denom) <= Percentile(data, p + 1, Denom)
(* reading an order statistic leaves the caller's slice alone *)
ReadOnly == [][(ret' \in Int) => data' = data]_vars
=============================================================================

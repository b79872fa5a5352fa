----------------------------- MODULE HaloSearch -----------------------------
(* The subhalo search on a line: halos are put into linked lists, one per    *)
(* cell; each halo in turn visits the cells its sphere, widened by the       *)
(* largest radius yet to come, can reach, and notes later halos which        *)
(* intersect it; hosts and subhalos are then matched. The search is run      *)
(* twice, the second time with all radii doubled.                            *)
EXTENDS HaloOverlap, SequencesExt, FiniteSets, TLC
CONSTANTS N, W, Cs, R
VARIABLES c, xs, rs, mult, phase, k, heads, next, subs, inter
vars == <<c, xs, rs, mult, phase, k, heads, next, subs, inter>>
Halos == 1..N
NoLists == [i \in Halos |-> <<>>]
Init == /\ c \in Cs /\ xs \in [Halos -> 0..(W - 1)] /\ rs \in [Halos -> 0..R]
        /\ \A i \in 1..(N - 1) : rs[i] >= rs[i + 1]
        /\ mult = 1 /\ phase = "insert" /\ k = 1 /\ heads = [v \in 0..(c - 1) |-> 0] /\ next = [i \in Halos |-> 0]
        /\ subs = NoLists /\ inter = NoLists
Insert == /\ phase = "insert" /\ LET v == Cell(xs[k], W, c) IN
               /\ next' = [next EXCEPT ![k] = heads[v]] /\ heads' = [heads EXCEPT ![v] = k]
          /\ IF k = N THEN phase' = "search" /\ k' = 1 ELSE phase' = phase /\ k' = k + 1
          /\ UNCHANGED <<c, xs, rs, mult, subs, inter>>
RECURSIVE Chain(_)
Chain(i) == IF i = 0 THEN <<>> ELSE <<i>> \o Chain(next[i])
Rad(i) == mult * rs[i]
MaxFrom(i) == LET s == {Rad(j) : j \in i..N} IN CHOOSE m \in s : \A x \in s : m >= x
Visit(p, r) == FoldLeft(LAMBDA acc, n : acc \o Chain(heads[(First(p, r, W, c) + n - 1) % c]), <<>>, [n \in 1..Span(p, r, W, c) |-> n])
Meets(i, j) == Apart1(xs[i], xs[j], W) <= Rad(i) + Rad(j)
Search == /\ phase = "search"
          /\ subs' = [subs EXCEPT ![k] = SelectSeq(Visit(xs[k], Rad(k) + MaxFrom(k)), LAMBDA j : j > k /\ Meets(k, j))]
          /\ IF k = N THEN phase' = "match" /\ k' = 1 ELSE phase' = phase /\ k' = k + 1
          /\ UNCHANGED <<c, xs, rs, mult, heads, next, inter>>
Hosts(i) == SelectSeq([n \in Halos |-> n], LAMBDA h : \E n \in 1..Len(subs[h]) : subs[h][n] = i)
Match == /\ phase = "match" /\ inter' = [i \in Halos |-> SortSeq(Hosts(i) \o subs[i], <)] /\ phase' = "done"
         /\ UNCHANGED <<c, xs, rs, mult, k, heads, next, subs>>
Again == /\ phase = "done" /\ mult = 1 /\ mult' = 2 /\ phase' = "search" /\ k' = 1 /\ subs' = NoLists /\ inter' = NoLists
         /\ UNCHANGED <<c, xs, rs, heads, next>>
Next == Insert \/ Search \/ Match \/ Again
Spec == Init /\ [][Next]_vars
Listed == phase # "insert" =>
            \A i \in Halos : \A v \in 0..(c - 1) : Len(SelectSeq(Chain(heads[v]), LAMBDA j : j = i)) = (IF v = Cell(xs[i], W, c) THEN 1 ELSE 0)
Exact == phase = "done" =>
           \A i \in Halos : /\ ToSet(inter[i]) = {j \in Halos : j # i /\ Meets(i, j)}
                            /\ \A n \in 1..(Len(inter[i]) - 1) : inter[i][n] < inter[i][n + 1]
(* what the cover of a sphere is for *)
Reach == \A i \in Halos : \A j \in Halos : Meets(i, j) => Covered(xs[i], Rad(i) + Rad(j), W, c, Cell(xs[j], W, c))
=============================================================================

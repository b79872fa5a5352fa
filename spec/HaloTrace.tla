----------------------------- MODULE HaloTrace -----------------------------
(* Recorded searches of render/halo. Lengths are in 1/64; the multiplier of  *)
(* a search is mk/md. A grid is held by the line of its event.               *)
EXTENDS HaloOverlap, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Slots == {"a", "b"}
VARIABLES grid, l
TraceInit == l = 1 /\ grid = [g \in Slots |-> 0]
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ E.outcome = "ok" /\ l' = l + 1
Fresh == Is("fresh") /\ grid' = [g \in Slots |-> 0]
N(h) == Len(h.xs)
(* the linked lists: every halo once, in its cell. A cell boundary which is not a binary number may be taken for the one below it *)
InCell(x, v, h) == v = Cell(x, h.w, h.c) \/ (h.inexact /\ ((x % h.w) * h.c) % h.w = 0 /\ (v + 1) % h.c = Cell(x, h.w, h.c))
Put(h) == /\ \A n \in 1..Len(h.cells) :
               /\ h.cells[n].len = Len(h.cells[n].in)
               /\ \A m \in 1..Len(h.cells[n].in) : \A i \in {h.cells[n].in[m] + 1} :
                     /\ i \in 1..N(h)
                     /\ InCell(h.xs[i], h.cells[n].at % h.c, h)
                     /\ InCell(h.ys[i], (h.cells[n].at \div h.c) % h.c, h)
                     /\ InCell(h.zs[i], h.cells[n].at \div (h.c * h.c), h)
          /\ Cardinality(UNION {{h.cells[n].in[m] : m \in 1..Len(h.cells[n].in)} : n \in 1..Len(h.cells)}) = N(h)
          /\ h.listed = N(h) /\ h.total = h.c * h.c * h.c
          /\ \A n \in 1..Len(h.cells) : h.cells[n].len <= h.longest
          /\ (N(h) > 0 => \E n \in 1..Len(h.cells) : h.cells[n].len = h.longest) /\ (N(h) = 0 => h.longest = 0)
Grid == Is("grid") /\ E.kept /\ (Put(E)) = TRUE /\ grid' = [grid EXCEPT ![E.g] = l]
(* intersections *)
Pos(h, i, s) == <<s * h.xs[i], s * h.ys[i], s * h.zs[i]>>
D2(h, i, j, s) == Dist2(Pos(h, i, s), Pos(h, j, s), s * h.w)
Sum(i, j) == E.mk * (E.rs[i] + E.rs[j])
Must(h, i, j) == LET d == D2(h, i, j, E.md) r == Sq(Sum(i, j)) IN IF E.md = 4 THEN r >= d ELSE r > d
May(h, i, j)  == Sq(Sum(i, j)) >= D2(h, i, j, E.md)
SeqSet(s) == {s[n] + 1 : n \in 1..Len(s)}
(* many halos: all but the first E.few are points at places of their own *)
FindMany == /\ Is("findmany") /\ grid[E.g] # 0 /\ E.kept
        /\ (\A h \in {Trace[grid[E.g]]} :
              /\ Len(E.rs) = N(h) /\ \A i \in (E.few + 1)..N(h) : E.rs[i] = 0
              /\ Cardinality({<<h.xs[i], h.ys[i], h.zs[i]>> : i \in 1..N(h)}) = N(h)
              /\ Len(E.inter) = N(h)
              /\ \A big \in {TLCEval([i \in 1..E.few |-> SeqSet(E.inter[i])])} :
                   /\ \A i \in 1..E.few :
                        /\ big[i] \subseteq 1..N(h) /\ i \notin big[i] /\ Cardinality(big[i]) = Len(E.inter[i])
                        /\ \A j \in 1..N(h) : j # i => /\ (Must(h, i, j) => j \in big[i])
                                                       /\ (j \in big[i] => May(h, i, j))
                   /\ \A i \in 1..N(h) : \A got \in {SeqSet(E.inter[i])} :
                        /\ got \cap 1..E.few = {j \in 1..E.few : i \in big[j]}
                        /\ i > E.few => got \subseteq 1..E.few
                        /\ SeqSet(E.hosts[i]) = {j \in got : j < i} /\ Len(E.hosts[i]) = Cardinality({j \in got : j < i})
                        /\ SeqSet(E.subs[i]) = {j \in got : j > i} /\ Len(E.subs[i]) = Cardinality({j \in got : j > i})
                        /\ E.counts[i] = <<Len(E.inter[i]), Len(E.hosts[i]), Len(E.subs[i])>>) = TRUE
        /\ UNCHANGED grid
Find == /\ Is("find") /\ grid[E.g] # 0 /\ E.kept
        /\ (\A h \in {Trace[grid[E.g]]} :
              /\ Len(E.rs) = N(h) /\ \A i \in 1..(N(h) - 1) : E.rs[i] >= E.rs[i + 1]
              /\ Len(E.inter) = N(h)
              /\ \A i \in 1..N(h) : \A got \in {SeqSet(E.inter[i])} :
                    /\ got \subseteq 1..N(h) /\ i \notin got /\ Cardinality(got) = Len(E.inter[i])
                    /\ \A j \in 1..N(h) : j # i => /\ (Must(h, i, j) => j \in got)
                                                   /\ (j \in got => May(h, i, j))
                                                   /\ ((j \in got) <=> (i \in SeqSet(E.inter[j])))
                    /\ SeqSet(E.hosts[i]) = {j \in got : j < i} /\ Len(E.hosts[i]) = Cardinality({j \in got : j < i})
                    /\ SeqSet(E.subs[i]) = {j \in got : j > i} /\ Len(E.subs[i]) = Cardinality({j \in got : j > i})
                    /\ E.counts[i] = <<Len(E.inter[i]), Len(E.hosts[i]), Len(E.subs[i])>>) = TRUE
        /\ UNCHANGED grid
(* the cells covering a sphere; val: <<inside, place>> of every cell along every axis *)
Axis(d) == \A v \in 0..(E.c - 1) : LET f == First(E.pos[d], E.r, E.w, E.c) IN
             /\ (E.val[d][v + 1][1] = 1) <=> Covered(E.pos[d], E.r, E.w, E.c, v)
             /\ E.val[d][v + 1][2] = (v - E.origin[d]) % E.c
             /\ E.span[d] = Span(E.pos[d], E.r, E.w, E.c)
             /\ E.origin[d] \in 0..(E.c - 1)
             /\ (E.span[d] < E.c => E.origin[d] = f)
Bounds == Is("bounds") /\ (\A d \in 1..3 : Axis(d)) = TRUE /\ UNCHANGED grid
TraceNext == Fresh \/ Grid \/ Find \/ FindMany \/ Bounds
TraceSpec == TraceInit /\ [][TraceNext]_<<grid, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

--------------------------- MODULE PipelineTrace ---------------------------
(* Whole runs of the command: a snapshot is converted, its segments are rendered, the grid *)
(* is used for histograms.  Everything is judged from the particles of the snapshot alone: *)
(* positions in units of which the box holds B, a grid's values as counts of samples in    *)
(* thousandths (density) or in 1/64 of the snapshot's unit of vel * ra / 4 (velocity).     *)
(* State: the particles, the elements they form (by stride), the grids made.               *)
EXTENDS PipelineDefs, SequencesExt, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES snap, cut, elems, grids, l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Dims == 1..3
Bag(f, S) == FoldSet(LAMBDA x, acc : acc + f[x], 0, S)

TraceInit == l = 1 /\ snap = 0 /\ cut = 0 /\ elems = <<>> /\ grids = <<>>

(* ---- the elements of a snapshot, read with stride k ---- *)
Site(n, i, j, k) == 1 + i + n * (j + n * k)
MakeElems(s, k) ==
  LET n == s.n
      m == n \div k
  IN [e \in 1..(m * m * m) |->
        LET a == (e - 1) % m
            b == ((e - 1) \div m) % m
            c == (e - 1) \div (m * m)
            cs == TLCEval({Site(n, x, y, z) : x \in Ends(n, k, a), y \in Ends(n, k, b), z \in Ends(n, k, c)})
        IN [iv |-> [d \in Dims |-> Interval(s.hd.width, {s.pos[3 * (i - 1) + d] : i \in cs})],
            v |-> [d \in Dims |-> LET S == {s.vel[3 * (i - 1) + d] * s.ra : i \in cs} IN <<Least(S), Most(S)>>]]]

Snap == /\ Is("snap") /\ Len(E.pos) = 3 * E.n * E.n * E.n /\ Len(E.vel) = Len(E.pos)
        /\ snap' = [n |-> E.n, pos |-> E.pos, vel |-> E.vel, ra |-> E.ra, hd |-> E.hd]
        /\ cut' = 0 /\ elems' = <<>> /\ grids' = <<>>

Convert == /\ Is("convert") /\ E.outcome = "ok" /\ snap.n % E.cells = 0
           /\ E.files = E.cells * E.cells * E.cells
           /\ cut' = E.cells /\ UNCHANGED <<snap, elems, grids>>

\* the elements for a stride are worked out once
Stride == /\ Is("stride") /\ cut # 0 /\ (snap.n \div cut) % E.skip = 0
          /\ \E es \in {TLCEval(MakeElems(snap, E.skip))} :
               /\ \A e \in 1..Len(es) : \A d \in Dims : 2 * (es[e].iv[d][2] - es[e].iv[d][1]) < snap.hd.width
               /\ elems' = (E.skip :> es) @@ elems
          /\ UNCHANGED <<snap, cut, grids>>

(* ---- a grid ---- *)
Header(g) == /\ g.z = snap.hd.z /\ g.om = snap.hd.om /\ g.ol = snap.hd.ol /\ g.h0 = 100 * snap.hd.h100
             /\ g.bw = snap.hd.width
PixOf(g, i) == <<(g.po[1] + ((i - 1) % g.ps[1])) % g.pix,
                 (g.po[2] + (((i - 1) \div g.ps[1]) % g.ps[2])) % g.pix,
                 (g.po[3] + ((i - 1) \div (g.ps[1] * g.ps[2]))) % g.pix>>
First(B, P, x) == x \div (B \div P)
Placed(g) == LET B == snap.hd.width IN
   \A d \in Dims : /\ g.po[d] = First(B, g.pix, g.X[d])
                   /\ g.ps[d] = First(B, g.pix, g.X[d] + g.W[d]) + 1 - g.po[d]
                   /\ g.ps[d] <= g.pix
Touched(g) == [e \in 1..Len(elems[g.skip]) |->
                  [d \in Dims |-> TLCEval(Touch(snap.hd.width, g.pix, elems[g.skip][e].iv[d], 1))]]
In(t, p) == p[1] \in t[1] /\ p[2] \in t[2] /\ p[3] \in t[3]
Only(t) == Cardinality(t[1]) = 1 /\ Cardinality(t[2]) = 1 /\ Cardinality(t[3]) = 1
Slack(v) == 20 + (((v \div 1000) * (v \div 1000)) \div 12000)     \* single precision sums
Each(g) == 6 * g.pts

DensityOK(g, ts) ==
  \A i \in 1..Len(g.vals) :
    \A p \in {PixOf(g, i)} : \A v \in {g.vals[i]} :
      \A near \in {{e \in 1..Len(ts) : In(ts[e], p)}} :
         \A r \in {(v + 500) \div 1000} :
           /\ v >= 0
           /\ v - 1000 * r \in (0 - Slack(v))..Slack(v) \/ Slack(v) > 450
           /\ v + Slack(v) >= 1000 * Each(g) * Cardinality({e \in near : Only(ts[e])})
           /\ v - Slack(v) <= 1000 * Each(g) * Cardinality(near)
TotalOK(g) == \/ g.ps # <<g.pix, g.pix, g.pix>>
              \/ \E S \in {FoldSeq(LAMBDA v, acc : <<acc[1] + (v \div 1000), acc[2] + (v % 1000), acc[3] + Slack(v)>>, <<0, 0, 0>>, g.vals)} :
                   \E D \in {S[1] + (S[2] \div 1000) - Each(g) * Len(elems[g.skip])} :
                      1000 * D + (S[2] % 1000) \in (0 - S[3])..S[3]

Abs(x) == IF x < 0 THEN -x ELSE x
VSlack(v) == 2 + (Abs(v) \div 2000)
VelocityOK(g, ts) ==
  \A i \in 1..(Len(g.vals) \div 3) :
    \A p \in {PixOf(g, i)} :
      \A near \in {{e \in 1..Len(ts) : In(ts[e], p)}} :
        \A v \in {<<g.vals[3 * i - 2], g.vals[3 * i - 1], g.vals[3 * i]>>} :
          \/ v = <<0, 0, 0>> /\ ~ \E e \in near : Only(ts[e])
          \/ /\ near # {}
             /\ \A d \in Dims :
                 /\ v[d] + VSlack(v[d]) >= 4 * Least({elems[g.skip][e].v[d][1] : e \in near})
                 /\ v[d] - VSlack(v[d]) <= 4 * Most({elems[g.skip][e].v[d][2] : e \in near})

Grid == /\ Is("grid") /\ E.outcome = "ok" /\ cut # 0 /\ E.skip \in DOMAIN elems
        /\ Header(E) = TRUE /\ Placed(E) = TRUE
        /\ E.tot = E.pix /\ E.hpts = E.pts /\ E.hskip = E.skip
        /\ E.typ = (IF E.q = "Density" THEN 0 ELSE E.typ)
        /\ E.vec = (IF E.q = "Velocity" THEN 1 ELSE 0)
        /\ Len(E.vals) = E.ps[1] * E.ps[2] * E.ps[3] * (IF E.q = "Velocity" THEN 3 ELSE 1)
        /\ \A ts \in {TLCEval(Touched(E))} :
              (IF E.q = "Velocity" THEN VelocityOK(E, ts) ELSE (DensityOK(E, ts) /\ TotalOK(E))) = TRUE
        /\ grids' = (E.id :> l) @@ grids
        /\ UNCHANGED <<snap, cut, elems>>

(* ---- histograms of a density grid: bins of E.step samples from E.k0 - 1/2 on ---- *)
BinOf(h, r) == IF r < h.k0 \/ r >= h.k0 + h.step * h.bins THEN 0 ELSE 1 + ((r - h.k0) \div h.step)
Inside(h, e) ==                   \* the element lies in the box, or can
  [sure |-> \A d \in Dims : h.W[d] = snap.hd.width \/
               ((elems[h.skip][e].iv[d][1] - 1 - h.X[d]) % snap.hd.width) + elems[h.skip][e].iv[d][2] - elems[h.skip][e].iv[d][1] + 2 < h.W[d],
   may  |-> \A d \in Dims : \/ (elems[h.skip][e].iv[d][1] - 1 - h.X[d]) % snap.hd.width < h.W[d]
                            \/ (h.X[d] - elems[h.skip][e].iv[d][1] + 1) % snap.hd.width <= elems[h.skip][e].iv[d][2] - elems[h.skip][e].iv[d][1] + 2]
Hist ==
  /\ Is("hist") /\ E.outcome = "ok" /\ E.grid \in DOMAIN grids /\ E.skip \in DOMAIN elems
  /\ Len(E.counts) = E.bins
  /\ \A g \in {Trace[grids[E.grid]]} :
       \A ts \in {TLCEval([e \in 1..Len(elems[E.skip]) |->
                  [d \in Dims |-> TLCEval(Touch(snap.hd.width, g.pix, elems[E.skip][e].iv[d], 1))]])} :
       \A bins \in {TLCEval([i \in 1..Len(g.vals) |-> {BinOf(E, r) : r \in ((g.vals[i] - Slack(g.vals[i]) + 500) \div 1000)..((g.vals[i] + Slack(g.vals[i]) + 500) \div 1000)}])} :
       \A at \in {TLCEval([i \in 1..Len(g.vals) |-> PixOf(g, i)])} :
       \* per element: the bins its samples may fall into (-1: off the grid)
       \A can \in {TLCEval([e \in 1..Len(ts) |->
              LET is == {i \in 1..Len(at) : In(ts[e], at[i])}
              IN (UNION {bins[i] : i \in is}) \cup
                 (IF Cardinality(is) < Cardinality(ts[e][1]) * Cardinality(ts[e][2]) * Cardinality(ts[e][3]) THEN {-1} ELSE {})])} :
       \A ins \in {TLCEval([e \in 1..Len(ts) |-> Inside(E, e)])} :
         (/\ \A b \in 1..E.bins :
               /\ E.counts[b] >= Each(E) * Cardinality({e \in 1..Len(ts) : ins[e].sure /\ can[e] = {b}})
               /\ E.counts[b] <= Each(E) * Cardinality({e \in 1..Len(ts) : ins[e].may /\ b \in can[e]})
          /\ FoldSeq(LAMBDA v, acc : acc + v, 0, E.counts)
                >= Each(E) * Cardinality({e \in 1..Len(ts) : ins[e].sure /\ can[e] \subseteq 1..E.bins})
          /\ FoldSeq(LAMBDA v, acc : acc + v, 0, E.counts)
                <= Each(E) * Cardinality({e \in 1..Len(ts) : ins[e].may /\ can[e] \cap 1..E.bins # {}})) = TRUE
  /\ UNCHANGED <<snap, cut, elems, grids>>

\* a run that made nothing else
Done == Is("done") /\ E.extra = 0 /\ UNCHANGED <<snap, cut, elems, grids>>

TraceNext == Snap \/ Convert \/ Stride \/ Grid \/ Hist \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_<<snap, cut, elems, grids, l>>
TraceAccepted == Len(Trace) + 1 = TLCGet("stats").diameter
=============================================================================

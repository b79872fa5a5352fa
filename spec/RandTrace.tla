----------------------------- MODULE RandTrace -----------------------------
(* Recorded use of math/rand. A stream is what one fresh generator of its    *)
(* type and seed gives when drawn one by one: "stream" lines hold it, as the *)
(* bits of every value and in 2^-24. Generators hold a position in a stream. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
SB == INSTANCE Sobol WITH B <- 30
Trace == ndJsonDeserialize(IOEnv.TRACE)
Names == {"a", "b", "c"}
VARIABLES ref, gen, sob, l
vars == <<ref, gen, sob, l>>
None == [k |-> 0, pos |-> 0]
Clear == ref' = [k \in 1..3 |-> 0] /\ gen' = [g \in Names |-> None] /\ sob' = [g \in Names |-> [dim |-> -1, n |-> 0]]
TraceInit == l = 1 /\ ref = [k \in 1..3 |-> 0] /\ gen = [g \in Names |-> None] /\ sob = [g \in Names |-> [dim |-> -1, n |-> 0]]
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ E.outcome = "ok" /\ l' = l + 1
Abs(x) == IF x < 0 THEN -x ELSE x
F24 == 16777216

Fresh == Is("fresh") /\ Clear
(* a stream: every value in [0, 1), evenly spread when there are many, other seeds other streams *)
Bin(fs, k) == Cardinality({i \in 1..4096 : fs[i] \div (F24 \div 16) = k})
Even(fs) == Len(fs) >= 4096 => \A k \in 0..15 : Bin(fs, k) >= 128 /\ Bin(fs, k) <= 512
Apart == \A k \in 1..3 : (ref[k] # 0 /\ k # E.k /\ Trace[ref[k]].gt = E.gt /\ Trace[ref[k]].seed # E.seed /\ E.small /\ Trace[ref[k]].small) =>
             \E i \in 1..8 : Trace[ref[k]].bits[i] # E.bits[i]
Stream == /\ Is("stream") /\ Len(E.bits) = E.n /\ Len(E.fs) = E.n /\ E.in
          /\ \A i \in 1..E.n : E.fs[i] >= 0 /\ E.fs[i] < F24
          /\ (Even(E.fs)) = TRUE /\ (Apart) = TRUE
          /\ ref' = [ref EXCEPT ![E.k] = l] /\ UNCHANGED <<gen, sob>>
(* the same type and seed in another process *)
Again == Is("again") /\ ref[E.k] # 0 /\ E.bits = Trace[ref[E.k]].bits /\ UNCHANGED <<ref, gen, sob>>
Make  == /\ Is("make") /\ ref[E.k] # 0 /\ Trace[ref[E.k]].gt = E.gt /\ Trace[ref[E.k]].seed = E.seed
         /\ gen' = [gen EXCEPT ![E.g] = [k |-> E.k, pos |-> 0]] /\ UNCHANGED <<ref, sob>>
Src(g) == Trace[ref[gen[g].k]]
Room(g, n) == gen[g].k # 0 /\ gen[g].pos + n <= Src(g).n
Took(g, n) == gen' = [gen EXCEPT ![g].pos = @ + n] /\ UNCHANGED <<ref, sob>>
(* one by one or as a batch, over [0, 1): the very values of the stream *)
Given(g, bits, n) == Len(bits) = n /\ bits = SubSeq(Src(g).bits, gen[g].pos + 1, gen[g].pos + n)
Unit == Is("unit") /\ Room(E.g, E.n) /\ Given(E.g, E.bits, E.n) /\ Took(E.g, E.n)
(* over other ranges: the stream stretched, and inside the range. Out in 2^-24 of the width *)
Near(g, out, n) == \A i \in 1..n : Abs(out[i] - Src(g).fs[gen[g].pos + i]) <= 2
Stretch ==
         /\ Is("range") /\ Room(E.g, E.n) /\ E.in /\ Len(E.out) = E.n
         /\ (E.loose \/ Near(E.g, E.out, E.n)) = TRUE /\ Took(E.g, E.n)
(* integers: out is relative to low; f24 is the stream value rounded down *)
Whole(f, w) == LET q == f \div 4096 r == f % 4096 IN ((q * w) + ((r * w) \div 4096)) \div 4096   \* floor(f w / 2^24), w < 2^18
Integral ==
       /\ Is("int") /\ Room(E.g, E.n) /\ E.in /\ Len(E.out) = E.n
       /\ \A i \in 1..E.n : E.out[i] >= 0 /\ E.out[i] < E.w /\ LET f == Src(E.g).fs[gen[E.g].pos + i]
                            IN  E.out[i] >= Whole(f, E.w) /\ E.out[i] <= Whole(f + 1, E.w)
       /\ Took(E.g, E.n)
(* several generators at once, each in its own goroutine *)
Par == /\ Is("par") /\ \A i \in 1..Len(E.by) : Room(E.by[i].g, E.by[i].n) /\ Given(E.by[i].g, E.outs[i], E.by[i].n)
       /\ Cardinality({E.by[i].g : i \in 1..Len(E.by)}) = Len(E.by) /\ Len(E.outs) = Len(E.by)
       /\ gen' = [g \in Names |-> IF \E i \in 1..Len(E.by) : E.by[i].g = g
                                  THEN [gen[g] EXCEPT !.pos = @ + E.by[CHOOSE i \in 1..Len(E.by) : E.by[i].g = g].n]
                                  ELSE gen[g]]
       /\ UNCHANGED <<ref, sob>>
(* Sobol sequences: made or restarted, then one point after another in a fixed number of coordinates *)
SInit == Is("sinit") /\ sob' = [sob EXCEPT ![E.g] = [dim |-> E.dim, n |-> 0]] /\ UNCHANGED <<ref, gen>>
SNext == /\ Is("snext") /\ sob[E.g].dim >= 0 /\ E.kept
         /\ \A p \in {SB!Point(sob[E.g].n + E.n, sob[E.g].dim)} : E.out = p
         /\ sob' = [sob EXCEPT ![E.g].n = @ + E.n] /\ UNCHANGED <<ref, gen>>
(* more coordinates than there are, or more points *)
SStop == /\ l <= Len(Trace) /\ E.e = "snext" /\ E.outcome \in {"died", "panic", "err"} /\ l' = l + 1
         /\ (sob[E.g].dim > 6 \/ sob[E.g].n + E.n >= 1073741824) /\ Clear
TraceNext == Fresh \/ Stream \/ Again \/ Make \/ Unit \/ Stretch \/ Integral \/ Par \/ SInit \/ SNext \/ SStop
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

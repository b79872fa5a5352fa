--------------------------- MODULE ConvertTrace ---------------------------
(* Runs of `main -ConvertSnapshot`, observed through the files they write.    *)
(* The snapshot is what its particles say, by site; how they were encoded and *)
(* split over files is not part of the state.                                 *)
EXTENDS Lagrange, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS          \* "C01", "C02" or "C03"
VARIABLES snaps,   \* snapshots in the input directories, by number
          run,     \* the conversion under way
          seen,    \* per snapshot, the segments found
          names,   \* file names of the current snapshot
          sheets,  \* C02: segment contents by <<snapshot, index>>
          l
vars == <<snaps, run, seen, names, sheets, l>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
NoRun == [on |-> FALSE, ks |-> {}, c |-> 1]

Init == l = 1 /\ snaps = <<>> /\ run = NoRun /\ seen = <<>> /\ names = {} /\ sheets = <<>>
Begin == /\ Is("begin") /\ snaps' = <<>> /\ run' = NoRun /\ seen' = <<>> /\ names' = {} /\ sheets' = <<>>

(* content of a snapshot: positions wrapped once into the box (1/64), velocities *)
(* times sqrt(a) (1/64)                                                           *)
Wrap(x, B) == IF x < 0 THEN x + B ELSE IF x >= B THEN x - B ELSE x
Snap == /\ Is("snap")
        /\ snaps' = (E.k :> [n |-> E.n, hd |-> E.hd,
                             xs |-> [j \in 1..Len(E.pos) |-> Wrap(E.pos[j], E.hd.width)],
                             vs |-> [j \in 1..Len(E.vel) |-> E.vel[j] * E.ra]]) @@ snaps
        /\ UNCHANGED <<run, seen, names, sheets>>

(* which snapshots a run converts *)
UpTo(start) == {k \in DOMAIN snaps : \A j \in start..k : j \in DOMAIN snaps}
Wanted(cf) == IF ~cf.iterated THEN {cf.start}
              ELSE IF cf.end >= 0 THEN cf.start..cf.end
              ELSE {k \in UpTo(cf.start) : k >= cf.start}
SeqToSet(s) == {s[i] : i \in 1..Len(s)}
Run == /\ Is("convert")
       /\ LET w == Wanted(E.cf) IN
            /\ w \subseteq DOMAIN snaps
            /\ w # {} => E.outcome = "ok"
            /\ SeqToSet(E.out) = w
            /\ run' = [on |-> TRUE, ks |-> w, c |-> E.cf.cells]
            /\ seen' = [k \in w |-> {}]
       /\ names' = {} /\ UNCHANGED <<snaps, sheets>>

(* a sheet file found in the output directory of snapshot E.k *)
V(s, j) == <<s[3 * j + 1], s[3 * j + 2], s[3 * j + 3]>>
Contents(interior) ==
  LET sn == snaps[E.k] IN LET ng == NGrid(sn.n, run.c) IN
  /\ Len(E.xs) = 3 * ng /\ Len(E.vs) = 3 * ng
  /\ \A p \in 0..(ng - 1) : (interior => Interior(sn.n, run.c, p)) =>
        LET s == SegSite(sn.n, run.c, E.hd.idx, p) IN
          V(E.xs, p) = V(sn.xs, s) /\ V(E.vs, p) = V(sn.vs, s)

Counts(sn) == /\ E.hd.countwidth = sn.n
              /\ E.hd.segwidth = SegWidth(sn.n, run.c)
              /\ E.hd.gridwidth = E.hd.segwidth + 1
              /\ E.hd.gridcount = E.hd.gridwidth * E.hd.gridwidth * E.hd.gridwidth
              /\ E.hd.cells = run.c
              /\ E.hd.idx \in 0..(NSegs(run.c) - 1)
Physics(sn) == /\ E.hd.z = sn.hd.z /\ E.hd.om = sn.hd.om /\ E.hd.ol = sn.hd.ol /\ E.hd.h100 = sn.hd.h100
               /\ E.hd.mass = sn.hd.mass /\ E.hd.width = sn.hd.width
(* bounds, against the segment's own contents.  Displacements from its first     *)
(* particle span less than half the box iff the particles do.                    *)
Arc(y, B) == LET m == y % B IN IF 2 * m >= B THEN m - B ELSE m
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
Column(s, d) == {s[3 * j + d] : j \in 0..((Len(s) \div 3) - 1)}
PosBounds(B, d) ==
  LET xs == Column(E.xs, d) IN
  LET disp == {Arc(x - E.xs[d], B) : x \in xs} IN
  LET lo == Min(disp) hi == Max(disp) IN
    (2 * (hi - lo) < B) =>
       LET o == E.hd.origin[d] w == E.hd.span[d] IN
         /\ o >= 0 /\ o < B
         /\ \A x \in xs : (x - o) % B <= w                 \* contained
         /\ w = hi - lo /\ o = (E.xs[d] + lo) % B          \* tight
VelBounds(d) == \A v \in Column(E.vs, d) : E.hd.vorigin[d] <= v /\ v <= E.hd.vorigin[d] + E.hd.vspan[d]

Sheet == /\ Is("sheet") /\ E.outcome = "ok" /\ run.on /\ E.k \in run.ks
         /\ LET sn == snaps[E.k] IN
            CASE Focus = "C01" -> E.hd.idx \in 0..(NSegs(run.c) - 1) /\ Contents(TRUE)
              [] Focus = "C02" -> /\ E.hd.idx \in 0..(NSegs(run.c) - 1) /\ E.hd.idx \notin seen[E.k]
                                  /\ <<E.k, E.name>> \notin names
                                  /\ E.hd.gridwidth = GridWidth(sn.n, run.c)
                                  /\ Contents(FALSE)
              [] Focus = "C03" -> /\ Counts(sn) /\ Physics(sn)
                                  /\ \A d \in 1..3 : PosBounds(sn.hd.width, d) /\ VelBounds(d)
         /\ seen' = [seen EXCEPT ![E.k] = @ \cup {E.hd.idx}]
         /\ names' = IF Focus = "C02" THEN names \cup {<<E.k, E.name>>} ELSE names
         /\ sheets' = IF Focus = "C02" /\ run.c <= 4 THEN (<<E.k, E.hd.idx>> :> [xs |-> E.xs, vs |-> E.vs]) @@ sheets ELSE sheets
         /\ UNCHANGED <<snaps, run>>

(* the recorded sheets agree with each other on every shared site, whatever the  *)
(* snapshot said                                                                  *)
Neighbours(k) ==
  LET n == snaps[k].n c == run.c g == GridWidth(snaps[k].n, run.c) w == SegWidth(snaps[k].n, run.c) IN
  \A i \in 0..(NSegs(c) - 1) : \A p \in 0..(NGrid(n, c) - 1) :
    ~Interior(n, c, p) =>
      LET s == SegSite(n, c, i, p) IN
      LET o == Owner(n, c, s) b == SegStart(n, c, Owner(n, c, s)) IN
      LET q == ((s % n) - b[1]) + g * (((s \div n) % n) - b[2]) + g * g * ((s \div (n * n)) - b[3]) IN
        /\ V(sheets[<<k, i>>].xs, p) = V(sheets[<<k, o>>].xs, q)
        /\ V(sheets[<<k, i>>].vs, p) = V(sheets[<<k, o>>].vs, q)

Done == /\ Is("done") /\ run.on
        /\ \A k \in run.ks : /\ seen[k] = 0..(NSegs(run.c) - 1)
                             /\ Focus = "C02" => Cardinality({x \in names : x[1] = k}) = NSegs(run.c)
                             /\ (Focus = "C02" /\ run.c <= 4) => Neighbours(k)
        /\ run' = NoRun /\ seen' = <<>> /\ names' = {} /\ sheets' = <<>> /\ UNCHANGED snaps
Next == Begin \/ Snap \/ Run \/ Sheet \/ Done
TraceSpec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

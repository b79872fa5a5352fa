---------------------------- MODULE CatalogTrace ----------------------------
(* Recorded use of render/halo's catalogues. A table is a "table" line: rows *)
(* of 62 integers, in units of 2^ex per column. Binary files are held as the *)
(* table line they came from and how many rows were asked for (-1: all), *)
(* and how many bytes there are: failed conversions and cuts leave some.     *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
F == INSTANCE Friedmann
Trace == ndJsonDeserialize(IOEnv.TRACE)
Texts == {"t", "u"}
Bins == {"p", "q"}
VARIABLES text, bin, l
vars == <<text, bin, l>>
NoBin == [at |-> 0, n |-> -1, size |-> 0]
TraceInit == l = 1 /\ text = [t \in Texts |-> 0] /\ bin = [b \in Bins |-> NoBin]
E == Trace[l]
At(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Ok(n) == At(n) /\ E.outcome = "ok"
Fresh == Ok("fresh") /\ text' = [t \in Texts |-> 0] /\ bin' = [b \in Bins |-> NoBin]
Table == Ok("table") /\ text' = [text EXCEPT ![E.t] = l] /\ UNCHANGED bin
(* a binary file of m rows: their number, then 62 columns. Conversions may hit a limit on the size of files *)
Stored(at, n) == LET m == Len(Trace[at].rows) IN IF n = -1 \/ n > m THEN m ELSE n
Full(at, n) == 8 + (496 * Stored(at, n))
Write(n) == /\ text[E.t] # 0 /\ UNCHANGED text
            /\ IF E.limit = -1 \/ E.limit >= Full(text[E.t], n)
               THEN E.outcome = "ok" /\ bin' = [bin EXCEPT ![E.b] = [at |-> text[E.t], n |-> n, size |-> Full(text[E.t], n)]]
               ELSE E.outcome = "err" /\ bin' = [bin EXCEPT ![E.b] = [at |-> text[E.t], n |-> n, size |-> E.limit]]
Convert == At("convert") /\ Write(-1)
TopN == At("topn") /\ Write(E.n)
Cut == Ok("cut") /\ bin[E.b].at # 0 /\ bin' = [bin EXCEPT ![E.b].size = IF E.size < @ THEN E.size ELSE @] /\ UNCHANGED text
ID == 2
M200b == 37
(* the column, counted from 1, behind a value: radii, 100 and up, are computed from masses *)
Col(v) == CASE v = 100 -> 11 [] v = 101 -> 37 [] v = 102 -> 38 [] v = 103 -> 39 [] v = 104 -> 40 [] OTHER -> v + 1
(* columns read: recorded in units of the column; kpc columns times 1000, computed radii as the mass they enclose *)
Same(rows, i, row) == /\ E.ids[i] = rows[row][ID]
                      /\ \A k \in 1..Len(E.vals) : E.out[k][i] = rows[row][Col(E.vals[k])]
Shape(n) == Len(E.ids) = n /\ Len(E.out) = Len(E.vals) /\ \A k \in 1..Len(E.vals) : Len(E.out[k]) = n
AllRows(rows) == Shape(Len(rows)) /\ \A i \in 1..Len(rows) : Same(rows, i, i)
SomeRows(rows, n) ==
    LET m == IF n < Len(rows) THEN n ELSE Len(rows)
        kept == {E.ids[i] : i \in 1..m}
    IN  /\ Shape(m) /\ Cardinality(kept) = m
        /\ \A i \in 1..m : \E r \in 1..Len(rows) : Same(rows, i, r)
        /\ \A r \in 1..Len(rows) : rows[r][ID] \notin kept =>
               \A s \in 1..Len(rows) : rows[s][ID] \in kept => rows[s][M200b] >= rows[r][M200b]
(* is all of a column in what there is of the file? *)
There(b, col) == b.size >= 8 /\ (Stored(b.at, b.n) = 0 \/ b.size >= 8 + (8 * Stored(b.at, b.n) * col))
Whole(b) == (There(b, ID) /\ \A k \in 1..Len(E.vals) : There(b, Col(E.vals[k]))) = TRUE
Torn == At("read") /\ E.outcome = "err" /\ E.f \in Bins /\ bin[E.f].at # 0 /\ ~Whole(bin[E.f]) /\ UNCHANGED <<text, bin>>
Read == /\ Ok("read")
        /\ IF E.f \in Texts THEN text[E.f] # 0 /\ AllRows(Trace[text[E.f]].rows) = TRUE
           ELSE /\ bin[E.f].at # 0 /\ Whole(bin[E.f])
                /\ IF bin[E.f].n = -1 THEN AllRows(Trace[bin[E.f].at].rows) = TRUE
                   ELSE SomeRows(Trace[bin[E.f].at].rows, bin[E.f].n) = TRUE
        /\ UNCHANGED <<text, bin>>
(* the sorted catalogue: <<id, x, y, z, mass or radius, the other one turned back>> *)
SizeCol == [vir |-> 12, r200c |-> 38, r200m |-> 37, r500c |-> 39, r2500c |-> 40]
Sorted == /\ Ok("sorted") /\ text[E.t] # 0 /\ E.desc
          /\ (\A rows \in {Trace[text[E.t]].rows} :
                 /\ Len(E.out) = Len(rows) /\ Cardinality({E.out[i][1] : i \in 1..Len(rows)}) = Len(rows)
                 /\ \A i \in 1..Len(rows) : \E r \in 1..Len(rows) :
                       E.out[i] = <<rows[r][ID], rows[r][18], rows[r][19], rows[r][20], rows[r][SizeCol[E.rt]], rows[r][SizeCol[E.rt]]>>) = TRUE
          /\ UNCHANGED <<text, bin>>
(* radius definitions, in thousandths: overdensity over the critical or the mean density *)
Delta == [vir |-> 177653, r200c |-> 200000, r200m |-> 200000, r500c |-> 500000, r2500c |-> 2500000]
(* mass within r/8 comoving Mpc over 4 pi/3 of Delta times today's critical density; and the radius turned back *)
Enclosed(a, n, r, rt) == IF rt = "r200m" THEN <<a * F!Cube(r), 51200>>
                         ELSE <<(F!H2(10 * a, n)[1] \div 10) * F!Cube(r), 51200 * F!Cube(8 + n)>>
Radius == /\ Ok("radius") /\ E.delta = Delta[E.rt]
          /\ Len(E.ms) = Len(E.rs) /\ Len(E.back) = Len(E.rs) /\ E.kept
          /\ (\A i \in 1..Len(E.rs) : /\ F!Is(E.ms[i], Enclosed(E.a, E.n, E.rs[i], E.rt), E.k)
                                      /\ (E.back[i] - E.rs[i] * 1048576) \in -2..2) = TRUE
          /\ UNCHANGED <<text, bin>>
Names == [ rvir |-> "vir", vir |-> "vir" ] @@ ("200c" :> "r200c") @@ ("r200c" :> "r200c") @@ ("200m" :> "r200m") @@ ("r200m" :> "r200m")
         @@ ("500c" :> "r500c") @@ ("r500c" :> "r500c") @@ ("2500c" :> "r2500c") @@ ("r2500c" :> "r2500c")
Name == /\ Ok("name")
        /\ E.ok = (E.low \in DOMAIN Names)
        /\ E.ok => (E.rt = Names[E.low] /\ E.again)
        /\ UNCHANGED <<text, bin>>
(* files which are not there *)
Missing == At("missing") /\ E.outcome = "err" /\ UNCHANGED <<text, bin>>
TraceNext == Fresh \/ Table \/ Convert \/ TopN \/ Read \/ Cut \/ Torn \/ Sorted \/ Radius \/ Name \/ Missing
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

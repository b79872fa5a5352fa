----------------------------- MODULE TetraTrace -----------------------------
(* Recorded index sets, foldings and tetrahedron objects against Tetrahedra.  *)
EXTENDS Tetrahedra, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          pat,     \* the subdivision used for every cube, once known
          c        \* corners of the tetrahedron object in use
vars == <<l, pat, c>>
TraceInit == l = 1 /\ pat = {} /\ c = <<>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ E.outcome = "ok" /\ l' = l + 1
Bad == -2147483647
Num3(v) == Len(v) = 3 /\ \A i \in Ax : v[i] # Bad

(* corners of one tetrahedron, relative to its cube, in units of the cube's side *)
Offsets(t, idx, n, skip) == {Minus(Point(t[k], n), Point(idx, n)) : k \in 1..4}
OfCube(t, idx, n, skip)  == /\ Len(t) = 4
                            /\ \A k \in 1..4 : 0 <= t[k] /\ t[k] < n * n * n
                            /\ \A v \in Offsets(t, idx, n, skip) : \A i \in Ax : v[i] \in {0, skip}
Shape(t, idx, n, skip)   == {<<v[1] \div skip, v[2] \div skip, v[3] \div skip>> : v \in Offsets(t, idx, n, skip)}
Cube == /\ Is("cube") /\ UNCHANGED c
        /\ \A d \in 1..6 : OfCube(E.t[d], E.idx, E.n, E.skip)
        /\ \E P \in {{Shape(E.t[d], E.idx, E.n, E.skip) : d \in 1..6}} :
              /\ IF pat = {} THEN (Partition(P) /\ FaceToFace(P)) = TRUE ELSE P = pat
              /\ pat' = P
        /\ \A d \in 1..6 : E.nw[d] = E.t[d]                         \* allocating form
        /\ E.skip = 1 => \A d \in 1..6 : {E.cart[d][k] : k \in 1..4} = {E.t[d][k] : k \in 1..4}

(* the same around a point of a grid too large to write its indices down; corners are relative to the point *)
SetOf(s) == {s[k] : k \in 1..Len(s)}
Steps(t, skip) == {<<v[1] \div skip, v[2] \div skip, v[3] \div skip>> : v \in SetOf(t)}
Arms(o, skip) == {<<0, 0, 0>>, <<o[1] * skip, 0, 0>>, <<0, o[2] * skip, 0>>, <<0, 0, o[3] * skip>>}
Far == /\ Is("far") /\ UNCHANGED c
       /\ (\A d \in 1..6 : Len(E.t[d]) = 4 /\ \A v \in SetOf(E.t[d]) : \A i \in Ax : v[i] \in {0, E.skip}) = TRUE
       /\ \E P \in {{Steps(E.t[d], E.skip) : d \in 1..6}} :
             /\ IF pat = {} THEN (Partition(P) /\ FaceToFace(P)) = TRUE ELSE P = pat
             /\ pat' = P
             /\ {SetOf(E.cart[d]) : d \in 1..6} = P
       /\ (\A o \in Octants : \A A \in {Arms(o, E.skip)} :
             \E d \in 1..8 : IF \A v \in A : \A i \in Ax : E.p[i] + v[i] \in 0..(E.n - 1)
                              THEN E.mid[d].ok /\ SetOf(E.mid[d].t) = A
                              ELSE ~E.mid[d].ok) = TRUE
       /\ Cardinality({d \in 1..8 : E.mid[d].ok}) = Cardinality({o \in Octants : \A v \in Arms(o, E.skip) : \A i \in Ax : E.p[i] + v[i] \in 0..(E.n - 1)})

OctantOf(t, p, skip, n) == {o \in Octants : {Point(t[k], n) : k \in 1..4} = Around(p, o, skip)}
Centered ==
    /\ Is("centered") /\ UNCHANGED <<pat, c>>
    /\ \E m \in {(2 * E.skip) + 1} :      \* reference: the middle of a grid just large enough
          LET mid == <<E.skip, E.skip, E.skip>>
          IN  \E oct \in {[d \in 1..8 |-> OctantOf(E.ref[d].t, mid, E.skip, m)]} :
              /\ \A d \in 1..8 : E.ref[d].ok /\ Cardinality(oct[d]) = 1
              /\ UNION {oct[d] : d \in 1..8} = Octants
              /\ \A d \in 1..8 : \A o \in oct[d] :
                    LET A == Around(Point(E.idx, E.n), o, E.skip)
                    IN  /\ E.at[d].ok = (\A p \in A : InCube(p, E.n))
                        /\ E.at[d].ok => {Point(E.at[d].t[k], E.n) : k \in 1..4} = A

Triples(xs) == [k \in 1..Len(xs) \div 3 |-> <<xs[(3 * k) - 2], xs[(3 * k) - 1], xs[3 * k]>>]
(* the whole lattice of the cube, folded *)
FoldStep ==
    /\ Is("fold") /\ UNCHANGED <<pat, c>>
    /\ Len(E.img) = 3 * (E.m + 1) * (E.m + 1) * (E.m + 1)
    /\ \E im \in {TLCEval(Triples(E.img))} : \E W \in {TLCEval(Weights(E.m))} :
          /\ \A k \in DOMAIN im : im[k] \in W
          /\ \A q \in Inner(E.m) : Cardinality({k \in DOMAIN im : im[k] = q}) = 6
(* points on a finer lattice still land inside *)
FoldPts ==
    /\ Is("foldpts") /\ UNCHANGED <<pat, c>>
    /\ \A k \in 1..Len(E.img) \div 3 :
          LET s == E.img[(3 * k) - 2]  t == E.img[(3 * k) - 1]  u == E.img[3 * k]
          IN  0 <= s /\ 0 <= t /\ 0 <= u /\ s + t + u <= E.m

Load == Is("tet") /\ c' = E.c /\ UNCHANGED pat /\ E.after = E.c
Same == UNCHANGED <<pat, c>> /\ E.after = c      \* no operation moves the corners
VolStep  == Is("vol") /\ Same /\ E.v = 64 * Abs(DetC(c))          \* volume times 6 * 64
BaryStep == Is("bary") /\ Same /\ E.v = [i \in Ax |-> c[1][i] + c[2][i] + c[3][i] + c[4][i]]   \* times 4
HasStep  == /\ Is("has") /\ Same
            /\ \A k \in DOMAIN E.in :
                  \E v \in {<<E.ps[(3 * k) - 2], E.ps[(3 * k) - 1], E.ps[3 * k]>>} :
                     /\ Within(c, v) => E.in[k]
                     /\ (Without(c, v) = TRUE) => ~E.in[k]
DistStep == /\ Is("dist") /\ Same
            /\ Len(E.out) = Len(E.ps) /\ Len(E.out64) = Len(E.ps) /\ E.psafter = E.ps
            /\ \A k \in 1..Len(E.ps) \div 3 :
                  \E a \in {Affine(c, <<E.ps[(3 * k) - 2], E.ps[(3 * k) - 1], E.ps[3 * k]>>, E.m)} :
                  \A i \in Ax : E.out[(3 * (k - 1)) + i] = a[i] /\ E.out64[(3 * (k - 1)) + i] = a[i]
(* the lattice of the unit cube distributed over the tetrahedron *)
FoldTet  == /\ Is("foldtet") /\ Same
            /\ Len(E.img) = 3 * (E.m + 1) * (E.m + 1) * (E.m + 1)
            /\ \E im \in {TLCEval(Triples(E.img))} :
               \E W \in {TLCEval({Affine(c, q, E.m) : q \in Weights(E.m)})} :
                  /\ \A k \in DOMAIN im : im[k] \in W
                  /\ DetC(c) # 0 => \A q \in Inner(E.m) :
                        \E a \in {Affine(c, q, E.m)} : Cardinality({k \in DOMAIN im : im[k] = a}) = 6
CellStep == /\ Is("cells") /\ Same     \* cell width cw2 / 2
            /\ \A i \in Ax : /\ E.o[i] = (2 * Lo(c, i)) \div E.cw2
                             /\ E.o[i] + E.w[i] - 1 = (2 * Hi(c, i)) \div E.cw2
(* random points, in 1/64: inside up to rounding; corners, and halves in between, get their share *)
C64 == [k \in 1..4 |-> [i \in Ax |-> 64 * c[k][i]]]
Side(k, v) == Sgn(DetC(C64)) * DetC(Sub(C64, k, v))
SampleStep ==
    /\ Is("sample") /\ Same /\ Len(E.out) = 3 * E.m
    /\ \E D \in {Abs(DetC(C64))} :
       \E s \in {TLCEval([j \in 1..E.m |-> TLCEval([k \in 1..4 |-> Side(k, <<E.out[(3 * j) - 2], E.out[(3 * j) - 1], E.out[3 * j]>>)])])} :
          /\ \A j \in 1..E.m, k \in 1..4 : s[j][k] >= -(D \div 50)
          /\ \A k \in 1..4 : LET h == Cardinality({j \in 1..E.m : s[j][k] > D \div 2})
                             IN  Abs((8 * h) - E.m) <= E.tol8
          /\ \A k \in 1..4, q \in 1..4 : k < q => LET h == Cardinality({j \in 1..E.m : s[j][k] > s[j][q]})
                                                  IN  Abs((2 * h) - E.m) <= E.tol2
TraceNext == Cube \/ Far \/ Centered \/ FoldStep \/ FoldPts \/ Load \/ VolStep \/ BaryStep \/ HasStep \/ DistStep
             \/ FoldTet \/ CellStep \/ SampleStep
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

---------------------------- MODULE Tetrahedra -----------------------------
(* C11.  Subdivisions of a cube of grid points into tetrahedra, tetrahedra    *)
(* around a point, and what a single tetrahedron object reports.              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Ax == 1..3
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Plus(a, b)  == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Dot(a, b)   == (a[1] * b[1]) + (a[2] * b[2]) + (a[3] * b[3])
Cross(a, b) == << (a[2] * b[3]) - (a[3] * b[2]), (a[3] * b[1]) - (a[1] * b[3]), (a[1] * b[2]) - (a[2] * b[1]) >>
(* six times the signed volume of (a, b, c, d) *)
Det(a, b, c, d) == Dot(Minus(b, a), Cross(Minus(c, a), Minus(d, a)))

(*************************** the cube ***************************************)
Corners == {<<x, y, z>> : x \in 0..1, y \in 0..1, z \in 0..1}
DetOf(T) == LET s == CHOOSE q \in [1..4 -> T] : {q[i] : i \in 1..4} = T IN Abs(Det(s[1], s[2], s[3], s[4]))
(* the cube has volume 6 in these units: six tetrahedra of volume 1 fill it if they do not overlap *)
UnitTetras == TLCEval({T \in kSubset(4, Corners) : DetOf(T) = 1})

(* interiors are disjoint iff a plane parallel to two of the edges separates them *)
EdgeVecs(T) == {Minus(p[1], p[2]) : p \in {q \in T \X T : q[1] # q[2]}}
Axes(S, T)  == {Cross(p[1], p[2]) : p \in (EdgeVecs(S) \cup EdgeVecs(T)) \X (EdgeVecs(S) \cup EdgeVecs(T))} \ {<<0, 0, 0>>}
Apart(S, T) == \E n \in Axes(S, T) : Max({Dot(n, v) : v \in S}) <= Min({Dot(n, v) : v \in T})

(* triangles of a subdivision that lie in the face x_i = c, seen without x_i  *)
Flat(v, i) == <<v[(i % 3) + 1], v[((i + 1) % 3) + 1]>>
FaceOf(P, i, c) == UNION {{{Flat(v, i) : v \in F} : F \in {G \in kSubset(3, T) : \A v \in G : v[i] = c}} : T \in P}
FaceToFace(P) == \A i \in Ax : FaceOf(P, i, 0) = FaceOf(P, i, 1)

Partition(P) == /\ Cardinality(P) = 6 /\ P \subseteq UnitTetras
                /\ \A S \in P, T \in P : S # T => Apart(S, T)

(************************ points inside the cube ****************************)
InTet(p, T) ==      \* strictly inside
    \A v \in T : LET s == CHOOSE q \in [1..3 -> T \ {v}] : {q[i] : i \in 1..3} = T \ {v}
                 IN  Sgn(Det(p, s[1], s[2], s[3])) = Sgn(Det(v, s[1], s[2], s[3])) /\ Det(p, s[1], s[2], s[3]) # 0

(****************************** octants *************************************)
Octants == {<<x, y, z>> : x \in {-1, 1}, y \in {-1, 1}, z \in {-1, 1}}
Unit(i, s) == [j \in Ax |-> IF j = i THEN s ELSE 0]
Around(p, o, skip) == {p} \cup {Plus(p, Unit(i, skip * o[i])) : i \in Ax}
InCube(p, n) == \A i \in Ax : 0 <= p[i] /\ p[i] < n
Point(idx, n) == <<idx % n, (idx \div n) % n, idx \div (n * n)>>

(************************ one tetrahedron object ****************************)
(* weights of the four corners, in units of 1/M *)
Weights(M) == {<<s, t, u>> \in (0..M) \X (0..M) \X (0..M) : s + t + u <= M}
Inner(M)   == {<<s, t, u>> \in (1..M) \X (1..M) \X (1..M) : s + t + u < M}
Affine(c, q, M) == [i \in Ax |-> (q[1] * c[1][i]) + (q[2] * c[2][i]) + (q[3] * c[3][i])
                                 + ((M - q[1] - q[2] - q[3]) * c[4][i])]      \* M times the point
Sub(c, k, v) == [c EXCEPT ![k] = v]
DetC(c) == Det(c[1], c[2], c[3], c[4])
(* strictly inside / strictly outside: signs of the four volumes with one corner replaced *)
Within(c, v)  == DetC(c) # 0 /\ \A k \in 1..4 : Sgn(DetC(Sub(c, k, v))) = Sgn(DetC(c))
Without(c, v) == IF DetC(c) = 0 THEN \E k \in 1..4 : DetC(Sub(c, k, v)) # 0
                 ELSE \E k \in 1..4 : Sgn(DetC(Sub(c, k, v))) = -Sgn(DetC(c))
Lo(c, i) == Min({c[k][i] : k \in 1..4})
Hi(c, i) == Max({c[k][i] : k \in 1..4})

(* one way of folding the cube onto the unit tetrahedron *)
Fold(p, M) ==
    LET a == IF p[1] + p[2] > M THEN <<M - p[1], M - p[2], p[3]>> ELSE p
    IN  IF a[2] + a[3] > M THEN <<a[1], M - a[3], M - a[1] - a[2]>>
        ELSE IF a[1] + a[2] + a[3] > M THEN <<M - a[2] - a[3], a[2], a[1] + a[2] + a[3] - M>> ELSE a
Lattice(M) == (0..M) \X (0..M) \X (0..M)
Uniform(F(_, _), M) == /\ \A p \in Lattice(M) : F(p, M) \in Weights(M)
                       /\ \A q \in Inner(M) : Cardinality({p \in Lattice(M) : F(p, M) = q}) = 6
ASSUME \A M \in {4, 7} : Uniform(Fold, M)

(* the subdivision along the diagonal, one tetrahedron per order of the axes *)
Kuhn == {{<<0, 0, 0>>, Unit(p[1], 1), Plus(Unit(p[1], 1), Unit(p[2], 1)), <<1, 1, 1>>} :
            p \in {q \in Ax \X Ax : q[1] # q[2]}}
ASSUME Partition(Kuhn) /\ FaceToFace(Kuhn)
=============================================================================

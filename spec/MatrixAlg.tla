---------------------------- MODULE MatrixAlg ----------------------------
(* Matrices are sequences of rows over a commutative ring given by Norm:     *)
(* the integers (Norm = identity) or the residues modulo a prime.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANT Norm(_)
MHeight(m) == Len(m)
MWidth(m)  == Len(m[1])
RECURSIVE Dot(_, _, _)
Dot(a, b, n) == IF n = 0 THEN 0 ELSE Norm(Dot(a, b, n - 1) + (a[n] * b[n]))
Column(m, j) == [i \in 1..MHeight(m) |-> m[i][j]]
MulVec(m, v) == [i \in 1..MHeight(m) |-> Dot(m[i], v, MWidth(m))]
VecMul(v, m) == [j \in 1..MWidth(m) |-> Dot(v, Column(m, j), MHeight(m))]
Conform(a, b) == MWidth(a) = MHeight(b)
Mul(a, b)    == [i \in 1..MHeight(a) |-> [j \in 1..MWidth(b) |-> Dot(a[i], Column(b, j), MWidth(a))]]
Transposed(m) == [j \in 1..MWidth(m) |-> [i \in 1..MHeight(m) |-> m[i][j]]]
Identity(n)  == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Square(m)    == MWidth(m) = MHeight(m)
Minor(m, c)  == [i \in 1..MHeight(m) - 1 |-> [j \in 1..MWidth(m) - 1 |-> m[i + 1][IF j < c THEN j ELSE j + 1]]]
(* the signed determinant, by expansion along the first row *)
RECURSIVE Det(_)
RECURSIVE DetRow(_, _)
DetRow(m, c) == IF c = 0 THEN 0
                ELSE Norm(DetRow(m, c - 1) + (IF m[1][c] = 0 THEN 0 ELSE (IF c % 2 = 1 THEN m[1][c] ELSE -m[1][c]) * Det(Minor(m, c))))
Det(m) == IF MHeight(m) = 1 THEN m[1][1] ELSE DetRow(m, MHeight(m))
Swapped(s, i, j) == [k \in 1..Len(s) |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]]
=============================================================================

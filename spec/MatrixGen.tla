---------------------------- MODULE MatrixGen ----------------------------
(* Every exchange sequence of partial pivoting up to 5 rows (matrices with   *)
(* one entry per row and column), every 2x2 matrix over a range and every    *)
(* regular 3x3 matrix of zeros and ones, as factorisations and solves.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Norm(x) == x
M == INSTANCE MatrixAlg
Perms(n) == {p \in [1..n -> 1..n] : {p[i] : i \in 1..n} = 1..n}
Monomial(p, n) == [i \in 1..n |-> [j \in 1..n |-> IF p[i] = j THEN (IF i % 2 = 0 THEN -1 ELSE 1) * (2 ^ (i % 3)) ELSE 0]]
Monomials == UNION {{Monomial(p, n) : p \in Perms(n)} : n \in 1..5}
Small == [1..2 -> [1..2 -> -2..2]]
Bits  == [1..3 -> [1..3 -> 0..1]]
NoZeroRow(a) == \A i \in 1..Len(a) : \E j \in 1..Len(a) : a[i][j] # 0
Base == SetToSeq({a \in (Monomials \cup Small \cup Bits) : NoZeroRow(a)})
X(n, k) == [i \in 1..n |-> ((7 * i + 3 * k) % 11) - 5]
XM(n, k) == [i \in 1..n |-> X(n, k + 2 * i)]
CaseOf(k, a, n, d, t) ==
    LET base == [s |-> k, t |-> t, lu |-> IF t = 64 THEN "p" ELSE "f", one |-> FALSE, rs |-> [i \in 1..n |-> (i * k) % 4]]
        ev(r) == r @@ base
    IN  << ev([e |-> "factor", a |-> a, fresh |-> TRUE, alloc |-> k % 2 = 0, n |-> n]), ev([e |-> "det"]) >>
        \o IF d = 0 THEN <<>>
           ELSE << ev([e |-> "solve", x |-> X(n, k), b |-> M!MulVec(a, X(n, k)), alias |-> k % 3 = 0]),
                   ev([e |-> "solvem", x |-> XM(n, k), b |-> M!Mul(a, XM(n, k)), alias |-> k % 3 = 1]),
                   ev([e |-> "inv"]), ev([e |-> "det"]) >>
Case(k) == CaseOf(k, Base[k], Len(Base[k]), M!Det(Base[k]), IF k % 3 = 0 THEN 32 ELSE 64)
ASSUME ndJsonSerialize(IOEnv.GEN, FlattenSeq([k \in 1..Len(Base) |-> Case(k)]))
VARIABLE z
GSpec == z = 0 /\ [][FALSE]_z
=============================================================================

--------------------------- MODULE LinearSolve ---------------------------
(* Design model of math/mat: factorisation of a matrix with any row          *)
(* exchanges pivoting may choose, followed by the solve with the recorded    *)
(* exchanges, over the field of residues modulo P. The algorithm uses        *)
(* nothing but field operations, so what holds here for every matrix and     *)
(* every choice of pivots is what it computes up to rounding.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, N, Rhs
AllRhs == [1..N -> 0..P - 1]
UnitRhs == {[i \in 1..N |-> IF i = j THEN 1 ELSE i % 2] : j \in 1..N}
Norm(x) == x % P
M == INSTANCE MatrixAlg
Field == 0..P - 1
Inv(x) == CHOOSE y \in Field : (x * y) % P = 1
VARIABLES a, b, m, piv, sign, k, y, phase
vars == <<a, b, m, piv, sign, k, y, phase>>
Init == /\ a \in [1..N -> [1..N -> Field]] /\ b \in Rhs
        /\ m = a /\ piv = <<>> /\ sign = 1 /\ k = 1 /\ y = <<>> /\ phase = "factor"

Eliminated(s) == \* after the exchange: multipliers below the pivot, the rest reduced
    [i \in 1..N |->
        IF i <= k THEN s[i]
        ELSE LET f == Norm(s[i][k] * Inv(s[k][k]))
             IN [j \in 1..N |-> IF j < k THEN s[i][j] ELSE IF j = k THEN f ELSE Norm(s[i][j] - (f * s[k][j]))]]
Factor == /\ phase = "factor" /\ k <= N
          /\ \E r \in {r \in k..N : m[r][k] # 0} :
                /\ m' = Eliminated(M!Swapped(m, k, r))
                /\ piv' = Append(piv, r)
                /\ sign' = IF r = k THEN sign ELSE -sign
          /\ k' = k + 1 /\ UNCHANGED <<a, b, y, phase>>
NoPivot == /\ phase = "factor" /\ k <= N /\ \A r \in k..N : m[r][k] = 0
           /\ phase' = "singular" /\ UNCHANGED <<a, b, m, piv, sign, k, y>>
(* the exchanges are applied in the order in which they were made *)
Exchange == /\ phase = "factor" /\ k > N
            /\ phase' = "exchange" /\ k' = 1 /\ y' = b /\ UNCHANGED <<a, b, m, piv, sign>>
ExchangeOne == /\ phase = "exchange" /\ k <= N
               /\ y' = M!Swapped(y, k, piv[k]) /\ k' = k + 1 /\ UNCHANGED <<a, b, m, piv, sign, phase>>
Forward == /\ phase = "exchange" /\ k > N /\ phase' = "forward" /\ k' = 1 /\ UNCHANGED <<a, b, m, piv, sign, y>>
ForwardOne == /\ phase = "forward" /\ k <= N
              /\ y' = [y EXCEPT ![k] = Norm(@ - M!Dot(m[k], y, k - 1))]
              /\ k' = k + 1 /\ UNCHANGED <<a, b, m, piv, sign, phase>>
Back == /\ phase = "forward" /\ k > N /\ phase' = "back" /\ k' = N /\ UNCHANGED <<a, b, m, piv, sign, y>>
RECURSIVE Above(_, _, _)
Above(row, x, j) == IF j > N THEN 0 ELSE Norm((row[j] * x[j]) + Above(row, x, j + 1))
BackOne == /\ phase = "back" /\ k >= 1
           /\ y' = [y EXCEPT ![k] = Norm((@ - Above(m[k], y, k + 1)) * Inv(m[k][k]))]
           /\ k' = k - 1 /\ UNCHANGED <<a, b, m, piv, sign, phase>>
Finish == /\ phase = "back" /\ k = 0 /\ phase' = "solved" /\ UNCHANGED <<a, b, m, piv, sign, k, y>>
Next == Factor \/ NoPivot \/ Exchange \/ ExchangeOne \/ Forward \/ ForwardOne \/ Back \/ BackOne \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
RECURSIVE Exchanged(_, _)
Exchanged(rows, n) == IF n = 0 THEN rows ELSE M!Swapped(Exchanged(rows, n - 1), n, piv[n])
Lower == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 1 ELSE IF j < i THEN m[i][j] ELSE 0]]
Upper == [i \in 1..N |-> [j \in 1..N |-> IF j >= i THEN m[i][j] ELSE 0]]
RECURSIVE Diag(_)
Diag(n) == IF n = 0 THEN 1 ELSE Norm(Diag(n - 1) * m[n][n])
Factored == phase \notin {"factor", "singular"} => M!Mul(Lower, Upper) = Exchanged(a, N)
Signed   == phase \notin {"factor", "singular"} => Norm(sign * Diag(N)) = M!Det(a)
Singular == (phase = "singular" => M!Det(a) = 0) /\ (phase = "solved" => M!Det(a) # 0)
Solves   == phase = "solved" => M!MulVec(a, y) = b
Transposes == M!Transposed(M!Transposed(a)) = a /\ M!VecMul(b, a) = M!MulVec(M!Transposed(a), b)
Ends == <>(phase \in {"singular", "solved"})
=============================================================================

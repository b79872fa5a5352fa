------------------------------ MODULE SavGol ------------------------------
(* Savitzky-Golay weights over the residues modulo P: least squares with     *)
(* monomials up to order p on the points -h..h, evaluated (its d-th          *)
(* derivative) at 0. The kernels of the model are exactly those whose        *)
(* moments up to p are those of the derivative and which are themselves      *)
(* polynomials of degree p: what SmoothingTrace demands of the real ones.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
P == 10007
Norm(x) == x % P
M == INSTANCE MatrixAlg
VARIABLES p, h, d, w
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE Norm(x * Pow(x, k - 1))
RECURSIVE PowP(_, _)
PowP(x, k) == IF k = 0 THEN 1 ELSE LET y == PowP(x, k \div 2) IN Norm(Norm(y * y) * (IF k % 2 = 1 THEN x ELSE 1))
Inv(x) == PowP(x, P - 2)
RECURSIVE Moment(_, _)
Moment(q, k) == IF k = 0 THEN Pow(0, q) ELSE Norm(Moment(q, k - 1) + Pow(k, q) + Pow(P - k, q))
Normal == [i \in 1..p + 1 |-> [j \in 1..p + 1 |-> Moment(i + j - 2, h)]]
Cramer(a, m) == [i \in 1..p + 1 |-> [j \in 1..p + 1 |-> IF j = m THEN (IF i = d + 1 THEN 1 ELSE 0) ELSE a[i][j]]]
RECURSIVE Poly(_, _, _)
Poly(bs, x, k) == IF k = 0 THEN 0 ELSE Norm(Poly(bs, x, k - 1) + (bs[k] * Pow(x, k - 1)))
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
Kernel == \E a \in {Normal} : \E det \in {M!Det(Normal)} :
            \E bs \in {[m \in 1..p + 1 |-> Norm(M!Det(Cramer(a, m)) * Inv(det))]} :
               w' = [j \in 1..(2 * h) + 1 |-> Norm(Fact(d) * Poly(bs, (j - 1 - h) % P, p + 1))]
Init == h \in 1..4 /\ p \in 0..4 /\ d \in 0..2 /\ d <= p /\ p < (2 * h) + 1 /\ w = <<>>
Next == w = <<>> /\ Kernel /\ UNCHANGED <<p, h, d>>
Spec == Init /\ [][Next]_<<p, h, d, w>>
RECURSIVE WSum(_, _, _)
WSum(ws, q, j) == IF j = 0 THEN 0 ELSE Norm(WSum(ws, q, j - 1) + (ws[j] * Pow((j - 1 - h) % P, q)))
RECURSIVE Diff(_, _)
Diff(s, k) == IF k = 0 THEN s ELSE Diff([j \in 1..Len(s) - 1 |-> Norm(s[j + 1] - s[j])], k - 1)
Reproduces == w # <<>> => \A q \in 0..p : WSum(w, q, Len(w)) = IF q = d THEN Fact(d) ELSE 0
Polynomial == (w # <<>> /\ (2 * h) + 1 > p + 1) => \A j \in 1..Len(Diff(w, p + 1)) : Diff(w, p + 1)[j] = 0
=============================================================================

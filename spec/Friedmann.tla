----------------------------- MODULE Friedmann -----------------------------
(* Flat matter and vacuum cosmologies as fractions: Omega_m = a/1000,        *)
(* Omega_L = 1 - a/1000, redshift z = n/8 (n > -8). A fraction is <<p, q>>.   *)
EXTENDS Integers, Sequences
Cube(x) == x * x * x
H2(a, n) == << (a * Cube(8 + n)) + (512 * (1000 - a)), 512000 >>            \* (H/H0)^2
Mean(a, n) == << a * Cube(8 + n), 512000 >>                                \* mean matter density over today's critical one
OmegaAt(a, n) == << a * Cube(8 + n), (a * Cube(8 + n)) + (512 * (1000 - a)) >>
(* 2^k p/q rounded down, without large intermediate numbers *)
RECURSIVE Long(_, _, _, _)
Long(v, r, q, k) == IF k = 0 THEN v ELSE IF 2 * r >= q THEN Long((2 * v) + 1, (2 * r) - q, q, k - 1) ELSE Long(2 * v, 2 * r, q, k - 1)
Fixed(f, k) == Long(f[1] \div f[2], f[1] % f[2], f[2], k)
Is(v, f, k) == LET w == Fixed(f, k) IN v >= w - 1 /\ v <= w + 2
=============================================================================

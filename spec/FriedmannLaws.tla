--------------------------- MODULE FriedmannLaws ---------------------------
(* The universe stepped through redshift, eighth by eighth.                  *)
EXTENDS Friedmann, TLC
CONSTANTS As, Last
VARIABLES a, n
Init == a \in As /\ n = -7
Next == n < Last /\ n' = n + 1 /\ a' = a
Spec == Init /\ [][Next]_<<a, n>>
Today == n = 0 => H2(a, n)[1] = H2(a, n)[2] /\ Mean(a, n)[1] * 1000 = a * Mean(a, n)[2]
Matter == Mean(a, n)[1] <= H2(a, n)[1]                                      \* never more matter than there is in total
Vacuum == H2(a, n)[1] - Mean(a, n)[1] = 512 * (1000 - a)                      \* the vacuum does not dilute
Dilute == n < 2 => Mean(a, n + 1)[1] * Cube(8 + n) = Mean(a, n)[1] * Cube(9 + n)         \* matter does, with the volume
Division == LET f == OmegaAt(a, n) w == Fixed(f, 4) IN w * f[2] <= 16 * f[1] /\ 16 * f[1] < (w + 1) * f[2]
=============================================================================

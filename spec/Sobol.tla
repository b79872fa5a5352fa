------------------------------- MODULE Sobol -------------------------------
(* The Sobol sequence in six dimensions (primitive polynomials x+1, x2+x+1,  *)
(* x3+x+1, x3+x2+1, x4+x+1, x4+x3+1), B binary digits, in Gray code order.   *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
CONSTANT B
Dims == 6
(* middle coefficients of the polynomials, and the initial odd numbers *)
Coeff == << <<>>, <<1>>, <<0, 1>>, <<1, 0>>, <<0, 0, 1>>, <<1, 0, 0>> >>
Start == << <<1>>, <<1, 1>>, <<1, 3, 7>>, <<1, 3, 3>>, <<1, 1, 3, 13>>, <<1, 1, 5, 9>> >>
Deg(d) == Len(Start[d])
RECURSIVE Mix(_, _, _, _)
Mix(d, m, j, i) == \* the first i terms of the recurrence for m[j]
    IF i = 0 THEN 0
    ELSE IF i = Deg(d) THEN (Mix(d, m, j, i - 1) ^^ (m[j - i] * (2 ^ i))) ^^ m[j - i]
    ELSE Mix(d, m, j, i - 1) ^^ (IF Coeff[d][i] = 1 THEN m[j - i] * (2 ^ i) ELSE 0)
RECURSIVE Odd(_, _)
Odd(d, k) == IF k <= Deg(d) THEN SubSeq(Start[d], 1, k)
             ELSE LET m == Odd(d, k - 1) IN Append(m, Mix(d, m, k, Deg(d)))
(* direction numbers, in units of 2^-B *)
Dir == TLCEval([d \in 1..Dims |-> LET m == Odd(d, B) IN [j \in 1..B |-> m[j] * (2 ^ (B - j))]])
RECURSIVE LowestZero(_)
LowestZero(n) == IF n % 2 = 0 THEN 0 ELSE 1 + LowestZero(n \div 2)
(* point n in closed form: digits of the Gray code of n *)
RECURSIVE Digits(_, _, _)
Digits(d, g, j) == IF g = 0 THEN 0 ELSE (IF g % 2 = 1 THEN Dir[d][j] ELSE 0) ^^ Digits(d, g \div 2, j + 1)
Coord(d, n) == Digits(d, n ^^ (n \div 2), 1)
Point(n, dim) == [d \in 1..dim |-> Coord(d, n)]
=============================================================================

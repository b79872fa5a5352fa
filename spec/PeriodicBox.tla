---------------------------- MODULE PeriodicBox ----------------------------
(* C12.  Vector registers inside a periodic box, and pixel ranges of a        *)
(* periodic grid.  Coordinates are integers (1/16 of the box's length unit);  *)
(* a register holds a 3-vector.  Every operation has an allocating, an        *)
(* in-place and an at-location form: they are the same step with different    *)
(* destination registers.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Ax == 1..3
V3(F(_)) == <<F(1), F(2), F(3)>>

(***************************** vector algebra *******************************)
Plus(a, b)  == V3(LAMBDA i : a[i] + b[i])
Dot(a, b)   == (a[1] * b[1]) + (a[2] * b[2]) + (a[3] * b[3])
Cross(a, b) == << (a[2] * b[3]) - (a[3] * b[2]), (a[3] * b[1]) - (a[1] * b[3]), (a[1] * b[2]) - (a[2] * b[1]) >>
Scaled(a, n, d) == V3(LAMBDA i : (a[i] * n) \div d)          \* n/d exact for the values used
Divides(a, n, d) == \A i \in Ax : (a[i] * n) % d = 0

(**************************** periodic box of width w ***********************)
Images(x, w) == {x + (k * w) : k \in -4..4}
(* the representative of x inside the box *)
Wrap(x, w) == x % w
(* the shortest of all displacements that differ by whole box widths: two of  *)
(* them when the points are exactly half a box apart                          *)
Shortest(d, w) == {x \in Images(d, w) : \A y \in Images(d, w) : Abs(x) <= Abs(y)}
(* inputs for which one step of wrapping is promised                          *)
WrapDomain(x, w) == -w <= x /\ x < 2 * w
SubDomain(d, w)  == Abs(d) <= 2 * w

(***************************** pixel ranges *********************************)
(* [o, o + n) on a ring of N pixels *)
Pixels(o, n, N) == {(o + k) % N : k \in 0..n - 1}
Share(o1, n1, o2, n2, N) == Pixels(o1, n1, N) \cap Pixels(o2, n2, N) # {}
(* sharing, or next to one another *)
Near(o1, n1, o2, n2, N) == Share(o1, n1 + 1, o2, n2, N) \/ Share(o1, n1, o2, n2 + 1, N)
LineShare(o1, n1, o2, n2) == o1 < o2 + n2 /\ o2 < o1 + n1
(* boxes of pixels share a pixel exactly if their ranges do on every axis *)
BoxShare(a, b, N) == \A i \in Ax : Share(a.o[i], a.w[i], b.o[i], b.w[i], N)
BoxNear(a, b, N)  == \A i \in Ax : Near(a.o[i], a.w[i], b.o[i], b.w[i], N)
BoxLineShare(a, b) == \A i \in Ax : LineShare(a.o[i], a.w[i], b.o[i], b.w[i])

(***************************** grid indices *********************************)
(* x varies fastest; the first cell of the grid is its origin *)
Cell(o, w, idx) == << o[1] + (idx % w[1]), o[2] + ((idx \div w[1]) % w[2]), o[3] + (idx \div (w[1] * w[2])) >>
Index(o, w, p)  == (p[1] - o[1]) + (w[1] * (p[2] - o[2])) + (w[1] * w[2] * (p[3] - o[3]))
Inside(o, w, p) == \A i \in Ax : o[i] <= p[i] /\ p[i] < o[i] + w[i]

(************************** positions in pixels *****************************)
(* position p (1/sub pixels, inside the box of N pixels) relative to a range  *)
(* starting at pixel o: the image at or after o ...                           *)
Rel(p, o, sub, N) == (p - (sub * o)) % (sub * N)
(* ... and relative to the start c of a second range, which lies up to half a *)
(* box to either side of the first                                            *)
RelTo(p, o, c, sub, N) == {Rel(p, o, sub, N) + (sub * d) : d \in Shortest(o - c, N)}

----------------------------------------------------------------------------
(************* registers: a history of operations with aliasing *************)
VARIABLES w,      \* box width
          reg,    \* register -> vector
          got     \* the number returned by the last scalar operation, or the record of the last step

Results(op, a, b, k) ==      \* the permitted results
    CASE op = "add"   -> {Plus(a, b)}
      [] op = "cross" -> {Cross(a, b)}
      [] op = "scale" -> {Scaled(a, k[1], k[2])}
      [] op = "mod"   -> {V3(LAMBDA i : Wrap(a[i], w))}
      [] op = "sub"   -> {<<x, y, z>> : x \in Shortest(a[1] - b[1], w), y \in Shortest(a[2] - b[2], w),
                                               z \in Shortest(a[3] - b[3], w)}
Defined(op, a, b, k) ==
    CASE op = "mod"   -> \A i \in Ax : WrapDomain(a[i], w)
      [] op = "sub"   -> \A i \in Ax : SubDomain(a[i] - b[i], w)
      [] op = "scale" -> Divides(a, k[1], k[2])
      [] OTHER        -> TRUE

Ops == {"add", "cross", "scale", "mod", "sub"}
Do(op, dst, s1, s2, k) ==
    /\ Defined(op, reg[s1], reg[s2], k)
    /\ \E r \in Results(op, reg[s1], reg[s2], k) : reg' = [reg EXCEPT ![dst] = r]
    /\ got' = [op |-> op, dst |-> dst, a |-> reg[s1], b |-> reg[s2], k |-> k, r |-> reg'[dst]]
    /\ UNCHANGED w

CONSTANTS Regs, Vals, Widths, MaxAbs, MaxN, MaxLevel
MCVals == {-3, 0, 1, 2, 5}
Init == w \in Widths /\ reg \in [Regs -> {<<x, x, y>> : x \in Vals, y \in Vals}] /\ got = [op |-> "none"]
Next == \E op \in Ops, d \in Regs, s1 \in Regs, s2 \in Regs, k \in {<<1, 1>>, <<-2, 1>>, <<1, 2>>} :
            (op = "scale" \/ k = <<1, 1>>) /\ Do(op, d, s1, s2, k)
Spec == Init /\ [][Next]_<<w, reg, got>>
Shallow == TLCGet("level") < MaxLevel
Small == Shallow /\ \A r \in Regs : \A i \in Ax : Abs(reg[r][i]) <= MaxAbs

(* the destination is the only thing an operation changes, whichever of the   *)
(* operands it is                                                             *)
OnlyDst == [][\A r \in Regs : r # got'.dst => reg'[r] = reg[r]]_<<w, reg, got>>
Lawful ==
    CASE got.op = "mod" -> \A i \in Ax : /\ 0 <= got.r[i] /\ got.r[i] < w
                                         /\ (got.r[i] - got.a[i]) % w = 0
      [] got.op = "sub" -> \A i \in Ax : /\ 2 * Abs(got.r[i]) <= w
                                         /\ (got.a[i] - got.b[i] - got.r[i]) % w = 0
      [] got.op = "cross" -> /\ Dot(got.r, got.a) = 0 /\ Dot(got.r, got.b) = 0
                             /\ Dot(got.r, got.r) = (Dot(got.a, got.a) * Dot(got.b, got.b)) - (Dot(got.a, got.b) * Dot(got.a, got.b))
                             /\ Plus(got.r, Cross(got.b, got.a)) = <<0, 0, 0>>
      [] OTHER -> TRUE

----------------------------------------------------------------------------
(******* rules the code can follow, shown to meet the definitions above *****)
WrapRule(x, W) == IF x >= W THEN x - W ELSE IF x < 0 THEN x + W ELSE x
SubRule(d, W) ==
    LET e == IF d < -W THEN d + W ELSE IF d >= W THEN d - W ELSE d
    IN  IF 2 * e > W THEN e - W ELSE IF 2 * e < -W THEN e + W ELSE e
Bound(x, o, N) == LET d == x - o IN IF d < 0 THEN d + N ELSE IF d >= N THEN d - N ELSE d
MeetRule(o1, n1, o2, n2, N) ==
    LET s == IF n1 < n2 THEN <<o1, n1, o2, n2>> ELSE <<o2, n2, o1, n1>>
    IN  Bound(s[1] + s[2], s[3], N) < s[4] \/ Bound(s[1], s[3], N) < s[4]

ASSUME \A W \in 1..6 : \A x \in -W..(2 * W) - 1 : WrapRule(x, W) = Wrap(x, W)
ASSUME \A W \in 1..6 : \A d \in -2 * W..2 * W : SubRule(d, W) \in Shortest(d, W)
ASSUME \A N \in 1..MaxN : \A o1 \in 0..N - 1, o2 \in 0..N - 1, n1 \in 1..N + 1, n2 \in 1..N + 1 :
          LET m == MeetRule(o1, n1, o2, n2, N)
          IN  (Share(o1, n1, o2, n2, N) => m) /\ (m => Near(o1, n1, o2, n2, N))
ASSUME \A o \in {<<0, 0, 0>>, <<-2, 3, 1>>} : \A a \in 1..3, b \in 1..3, c \in 1..3 :
          LET wd == <<a, b, c>> IN
          /\ \A i \in 0..(a * b * c) - 1 : Inside(o, wd, Cell(o, wd, i)) /\ Index(o, wd, Cell(o, wd, i)) = i
          /\ Cardinality({Cell(o, wd, i) : i \in 0..(a * b * c) - 1}) = a * b * c
=============================================================================

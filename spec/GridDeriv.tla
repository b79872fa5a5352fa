----------------------------- MODULE GridDeriv -----------------------------
(* C13.  Derivatives of fields on a grid that may fill its periodic box.      *)
(* Fields are polynomials in the grid coordinates; along an axis which the    *)
(* grid fills and which is differentiated periodically, a field is a          *)
(* polynomial around some centre and has a jump half a box away from it.      *)
(* Derivatives are per grid spacing.                                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
RECURSIVE SumSeq(_, _)
SumSeq(F, n) == IF n = 0 THEN 0 ELSE SumSeq(F, n - 1) + F[n]

(* a polynomial is a sequence of terms <<c, i, j, k>>: c x^i y^j z^k *)
Value(P, p) == SumSeq([t \in 1..Len(P) |-> P[t][1] * Pow(p[1], P[t][2]) * Pow(p[2], P[t][3]) * Pow(p[3], P[t][4])], Len(P))
DTerm(t, a) == IF t[a + 1] = 0 THEN <<0, 0, 0, 0>> ELSE [t EXCEPT ![1] = t[1] * t[a + 1], ![a + 1] = t[a + 1] - 1]
D(P, a)     == [t \in 1..Len(P) |-> DTerm(P[t], a)]         \* a \in 1..3

(* coordinate x of n, seen from the centre c of a periodic axis *)
Fold(x, c, n) == ((x - c + (n \div 2)) % n) - (n \div 2)
(* the stencil around a folded coordinate stays on this side of the jump *)
Smooth(f, n, h) == -(n \div 2) <= f - h /\ f + h <= ((n - 1) \div 2)

(************************ what the operators are ****************************)
(* signed derivatives <<sign, component, axis>> each output is the sum of     *)
Parts(kind, axis) ==
    CASE kind = "deriv" -> << << <<1, 1, axis>> >> >>
      [] kind = "grad"  -> << << <<1, 1, 1>> >>, << <<1, 1, 2>> >>, << <<1, 1, 3>> >> >>
      [] kind = "div"   -> << << <<1, 1, 1>>, <<1, 2, 2>>, <<1, 3, 3>> >> >>
      [] kind = "curl"  -> << << <<1, 3, 2>>, <<-1, 2, 3>> >>, << <<1, 1, 3>>, <<-1, 3, 1>> >>, << <<1, 2, 1>>, <<-1, 1, 2>> >> >>
(* accumulating versus overwriting *)
Put(op, old, new) == CASE op = "add" -> old + new [] op = "sub" -> old - new [] op = "none" -> new
DefaultOpt == [periodic |-> FALSE, op |-> "none", order |-> 4]

(************************ stencils that do the job **************************)
(* weights (over 2 or 12) of a grid of n points at position x *)
Center(order) == IF order = 2 THEN {<<-1, -1>>, <<1, 1>>} ELSE {<<-2, 1>>, <<-1, -8>>, <<1, 8>>, <<2, -1>>}
Edge(order, k) ==        \* k-th point from the lower end
    IF order = 2 THEN {<<0, -3>>, <<1, 4>>, <<2, -1>>}
    ELSE IF k = 0 THEN {<<0, -25>>, <<1, 48>>, <<2, -36>>, <<3, 16>>, <<4, -3>>}
    ELSE {<<-1, -3>>, <<0, -10>>, <<1, 18>>, <<2, -6>>, <<3, 1>>}
Mirror(S) == {<<-q[1], -q[2]>> : q \in S}
Stencil(order, x, n, wrapped) ==
    LET h == order \div 2 IN
    IF wrapped \/ (x >= h /\ x < n - h) THEN Center(order)
    ELSE IF x < h THEN Edge(order, x) ELSE Mirror(Edge(order, n - 1 - x))
Norm(order) == IF order = 2 THEN 2 ELSE 12
Apply(order, x, n, wrapped, F(_)) == MapThenSumSet(LAMBDA q : q[2] * F(IF wrapped THEN (x + q[1]) % n ELSE x + q[1]),
                                                   Stencil(order, x, n, wrapped))
(* operators are linear: monomials decide *)
ExactOpen == \A order \in {2, 4} : \A n \in order + 1..9 : \A x \in 0..n - 1 : \A m \in 0..order :
                LET f(y) == Pow(y, m)
                IN  Apply(order, x, n, FALSE, f) = Norm(order) * (IF m = 0 THEN 0 ELSE m * Pow(x, m - 1))
ExactWrap == \A order \in {2, 4} : \A n \in order + 1..8 : \A x \in 0..n - 1, c \in 0..n - 1 : \A m \in 0..order :
                LET f(y) == Pow(Fold(y, c, n), m)  g == Fold(x, c, n)
                IN  Smooth(g, n, order \div 2) =>
                        Apply(order, x, n, TRUE, f) = Norm(order) * (IF m = 0 THEN 0 ELSE m * Pow(g, m - 1))
ASSUME ExactOpen
ASSUME ExactWrap

----------------------------------------------------------------------------
(****** histories: operators share option objects, outputs accumulate *******)
VARIABLES opts,    \* option objects of the caller; "nil" is the package's default
          out,     \* one output cell (each operator contributes 1 per call here)
          ghost    \* what the cell should hold, computed from the calls' arguments alone
Names == {"nil", "a", "b"}
Arg(o) == IF o = "nil" THEN DefaultOpt ELSE opts[o]
Call(kind, o) ==
    LET ps == Parts(kind, 1)[1]
        total == SumSeq([k \in 1..Len(ps) |-> ps[k][1] * (k + 2)], Len(ps))     \* derivative number k contributes k + 2
    IN  /\ out' = Put(Arg(o).op, out, total)
        /\ ghost' = Put(Arg(o).op, ghost, total)
        /\ UNCHANGED opts
(* the same, one derivative at a time: first as asked, the rest accumulate *)
RECURSIVE Serial(_, _, _, _)
Serial(ps, k, op, v) == IF k > Len(ps) THEN v
    ELSE LET flip == ps[k][1] = -1
             o2 == IF k = 1 THEN op ELSE IF (op = "sub") = flip THEN "add" ELSE "sub"
         IN  Serial(ps, k + 1, op, Put(o2, v, k + 2))
SerialLaw == \A kind \in {"deriv", "grad", "div", "curl"} : \A op \in {"add", "sub", "none"} : \A v \in -2..2 :
    LET ps == Parts(kind, 1)[1]
    IN  Serial(ps, 1, op, v) = Put(op, v, SumSeq([k \in 1..Len(ps) |-> ps[k][1] * (k + 2)], Len(ps)))
ASSUME SerialLaw
SetOpt(o, v) == opts' = [opts EXCEPT ![o] = v] /\ UNCHANGED <<out, ghost>>
Init == opts = [o \in Names |-> DefaultOpt] /\ out = 0 /\ ghost = 0
Next == \/ \E kind \in {"deriv", "grad", "div", "curl"}, o \in Names : Call(kind, o)
        \/ \E o \in Names \ {"nil"}, p \in {"add", "sub", "none"}, r \in {2, 4} : SetOpt(o, [periodic |-> FALSE, op |-> p, order |-> r])
Spec == Init /\ [][Next]_<<opts, out, ghost>>
Near0 == out \in -12..12
NoMemory == out = ghost
DefaultStays == opts["nil"] = DefaultOpt
=============================================================================

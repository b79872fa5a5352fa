--------------------------- MODULE MatrixTrace ---------------------------
(* Recorded calls of math/mat against the algebra of MatrixAlg over the      *)
(* integers. The state is what each factorisation object holds: objects are  *)
(* reused for matrix after matrix. Real matrices are the recorded ones with  *)
(* row i scaled by 2^rs[i]; outputs are recorded in 1/65536.                 *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
Norm(x) == x
M == INSTANCE MatrixAlg
Trace == ndJsonDeserialize(IOEnv.TRACE)
Slots == {"p", "q", "f", "g"}
VARIABLES held, l
TraceInit == l = 1 /\ held = [s \in Slots |-> 0]
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ E.outcome = "ok" /\ l' = l + 1
S == 65536
Abs(x) == IF x < 0 THEN -x ELSE x
Close(x, y, tol) == Abs(x - y) <= tol
Tol == IF E.t = 64 THEN 4 ELSE 1400
Shape(m, h, w) == Len(m) = h /\ \A i \in 1..h : Len(m[i]) = w
A == IF E.one THEN E.a ELSE Trace[held[E.lu]].a
Known == E.one \/ held[E.lu] # 0
MaxAbs(a) == LET rows == [i \in 1..Len(a) |-> FoldSeq(LAMBDA v, acc : acc + Abs(v), 0, a[i])]
             IN  FoldSeq(LAMBDA v, acc : IF v > acc THEN v ELSE acc, 0, rows)

Fresh  == Is("fresh") /\ held' = [s \in Slots |-> 0]
Factor == Is("factor") /\ E.kept /\ held' = [held EXCEPT ![E.lu] = l]
Solve  == /\ Is("solve") /\ Known /\ E.kept /\ UNCHANGED held
          /\ \A a \in {A} : /\ M!MulVec(a, E.x) = E.b          \* the case is what it says
                            /\ Len(E.out) = Len(a)
                            /\ \A i \in 1..Len(a) : Close(E.out[i], S * E.x[i], Tol)
SolveM == /\ Is("solvem") /\ Known /\ E.kept /\ UNCHANGED held
          /\ \A a \in {A} : /\ M!Mul(a, E.x) = E.b
                            /\ Shape(E.out, Len(a), Len(a))
                            /\ \A i \in 1..Len(a) : \A j \in 1..Len(a) : Close(E.out[i][j], S * E.x[i][j], Tol)
Invert == /\ Is("inv") /\ Known /\ E.kept /\ UNCHANGED held
          /\ \A a \in {A} : /\ Shape(E.out, Len(a), Len(a))
                            /\ \A p \in {M!Mul(a, E.out)} : \A i \in 1..Len(a) : \A j \in 1..Len(a) :
                                  Close(p[i][j], IF i = j THEN S ELSE 0, Tol * MaxAbs(a))
Det    == Is("det") /\ Known /\ E.kept /\ UNCHANGED held /\ Close(E.out, 16 * M!Det(A), IF E.t = 64 THEN 1 ELSE 7)
Mult   == /\ Is("mult") /\ E.kept /\ UNCHANGED held
          /\ M!Conform(E.a, E.b) /\ E.out = M!Mul(E.a, E.b)
MulV   == Is("mulvec") /\ E.kept /\ UNCHANGED held /\ E.out = M!MulVec(E.a, E.b)
VMul   == Is("vecmul") /\ E.kept /\ UNCHANGED held /\ E.out = M!VecMul(E.b, E.a)
Transp == Is("transp") /\ E.kept /\ UNCHANGED held /\ E.out = M!Transposed(E.a)
(* a matrix of w x h with vals[i] = i, too large to record: sampled positions <<y, x, value>> of its transpose *)
Big    == /\ Is("bigtransp") /\ E.kept /\ UNCHANGED held /\ Len(E.out) > 100
          /\ \A k \in 1..Len(E.out) : E.out[k][3] = (E.out[k][2] * E.w) + E.out[k][1]
(* shapes which do not conform are refused and nothing is stored *)
Conforms == CASE E.e = "mult"   -> M!Conform(E.a, E.b)
              [] E.e = "factor" -> M!Square(E.a) /\ E.n = Len(E.a)
              [] E.e = "solve"  -> Len(E.b) = Len(A)
              [] E.e = "solvem" -> M!Square(E.b) /\ Len(E.b) = Len(A)
              [] E.e = "mulvec" -> Len(E.b) = M!MWidth(E.a)
              [] E.e = "vecmul" -> Len(E.b) = M!MHeight(E.a)
              [] E.e = "make"   -> E.w > 0 /\ E.h > 0 /\ E.w * E.h = E.n
Refused == /\ l <= Len(Trace) /\ E.outcome \in {"panic", "err"} /\ l' = l + 1
           /\ E.e \in {"mult", "factor", "solve", "solvem", "mulvec", "vecmul", "make"}
           /\ (~Conforms) = TRUE /\ UNCHANGED held
Make   == Is("make") /\ Conforms /\ E.out = <<E.w, E.h>> /\ UNCHANGED held
TraceNext == Fresh \/ Factor \/ Solve \/ SolveM \/ Invert \/ Det \/ Mult \/ MulV \/ VMul \/ Transp \/ Big \/ Refused \/ Make
TraceSpec == TraceInit /\ [][TraceNext]_<<held, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

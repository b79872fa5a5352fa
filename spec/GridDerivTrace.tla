-------------------------- MODULE GridDerivTrace --------------------------
(* Recorded derivative operators against GridDeriv: options are those of the  *)
(* caller's history, fields and outputs those of the call.                    *)
EXTENDS GridDeriv, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == l = 1 /\ opts = [o \in Names |-> DefaultOpt] /\ out = 0 /\ ghost = 0
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ E.outcome = "ok" /\ l' = l + 1
Abs(x) == IF x < 0 THEN -x ELSE x
OptsOf(r) == [o \in Names |-> [periodic |-> r[o].periodic, op |-> r[o].op, order |-> r[o].order]]

Set == Is("opts") /\ SetOpt(E.o, [periodic |-> E.periodic, op |-> E.op, order |-> E.order]) /\ OptsOf(E.after) = opts'

Wrapped(a) == Arg(E.o).periodic /\ E.cells = E.w[a]
Coord(idx) == << idx % E.w[1], (idx \div E.w[1]) % E.w[2], idx \div (E.w[1] * E.w[2]) >>
Folded(p)  == [a \in 1..3 |-> IF Wrapped(a) THEN Fold(p[a], E.c[a], E.w[a]) ELSE p[a]]
Judged(f, part) == \A k \in 1..Len(part) : Wrapped(part[k][3]) => Smooth(f[part[k][3]], E.w[part[k][3]], Arg(E.o).order \div 2)
Wanted(f, part) == SumSeq([k \in 1..Len(part) |-> part[k][1] * Value(D(E.f[part[k][2]], part[k][3]), f)], Len(part))
Old(m, idx) == E.pre[m] + (idx % 5)
CallOK ==
    LET P == Parts(E.kind, E.axis)  V == E.w[1] * E.w[2] * E.w[3]
    IN  /\ Len(E.out) = Len(P) /\ E.kept
        /\ \A m \in 1..Len(P) :
              /\ Len(E.out[m]) = V
              /\ \A idx \in 0..V - 1 :
                    \A f \in {Folded(Coord(idx))} :
                       Judged(f, P[m]) =>
                          \A want \in {64 * Put(Arg(E.o).op, Old(m, idx), Wanted(f, P[m]))} :
                             Abs(E.out[m][idx + 1] - want) <= 2 + (Abs(want) \div 10000)
Op == /\ Is("deriv") /\ (CallOK = TRUE)
      /\ OptsOf(E.after) = opts               \* nobody's options changed, the package's included
      /\ UNCHANGED <<opts, out, ghost>>
(* sessions use fresh option objects *)
Fresh == Is("fresh") /\ opts' = [o \in Names |-> DefaultOpt] /\ OptsOf(E.after) = opts' /\ UNCHANGED <<out, ghost>>
TraceNext == Set \/ Op \/ Fresh
TraceSpec == TraceInit /\ [][TraceNext]_<<opts, out, ghost, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------- MODULE PeriodicBoxTrace -------------------------
(* Every recorded call of the vector, grid and pixel range operations must be *)
(* a step of PeriodicBox.                                                     *)
EXTENDS PeriodicBox, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == l = 1 /\ w = 1 /\ reg = <<>> /\ got = 0
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ E.outcome = "ok" /\ l' = l + 1
Bad == -2147483647
Num3(v) == Len(v) = 3 /\ \A i \in Ax : v[i] # Bad

(* a session starts by loading the registers *)
Load == Is("load") /\ w' = E.w /\ reg' = E.regs /\ got' = 0 /\ E.after = E.regs
(* one operation: the recorded registers are the permitted next ones *)
Step == /\ Is("vec")
        /\ UNCHANGED w
        /\ reg' = E.after
        /\ Len(E.after) = Len(reg) /\ Num3(E.after[E.dst])
        /\ \A r \in DOMAIN reg : r # E.dst => E.after[r] = reg[r]
        /\ Defined(E.op, reg[E.a], reg[E.b], E.k) => E.after[E.dst] \in Results(E.op, reg[E.a], reg[E.b], E.k)
        /\ E.same                                   \* the pointer returned is the destination
        /\ got' = 0
(* scalar results leave every register alone *)
DotStep == Is("dot") /\ E.after = reg /\ E.v = Dot(reg[E.a], reg[E.b]) /\ UNCHANGED <<w, reg, got>>
NormStep == /\ Is("norm") /\ E.after = E.va
            /\ LET d == Dot(E.va, E.va) * 65536     \* |va|^2 in units of 1/256
               IN  (E.v - 1) * (E.v - 1) <= d /\ d <= (E.v + 1) * (E.v + 1) /\ E.v >= 0
            /\ UNCHANGED <<w, reg, got>>
(* single displacements and wraps from the bounded model, all forms at once *)
Sub1 == /\ Is("sub1") /\ Len(E.rs) = 4
        /\ \A f \in 1..4 : Num3(E.rs[f]) /\ \A i \in Ax : E.rs[f][i] \in Shortest(E.va[i] - E.vb[i], E.w)
        /\ UNCHANGED <<w, reg, got>>
Mod1 == /\ Is("mod1") /\ Len(E.rs) = 3
        /\ \A f \in 1..3 : Num3(E.rs[f]) /\ \A i \in Ax : E.rs[f][i] = Wrap(E.va[i], E.w)
        /\ UNCHANGED <<w, reg, got>>
(* coordinates an infinitesimal distance from a box edge: still inside *)
Tiny == /\ Is("tiny") /\ \A i \in Ax : E.in[i] /\ E.fl[i] \in {0, E.w - 1}
        /\ UNCHANGED <<w, reg, got>>
Vol(x) == x[1] * x[2] * x[3]
GridStep == /\ Is("grid")
            /\ Len(E.coords) = Vol(E.w) /\ E.size = <<E.w[1], E.w[1] * E.w[2], Vol(E.w)>>
            /\ \A i \in 1..Vol(E.w) : E.coords[i] = Cell(E.o, E.w, i - 1) /\ E.back[i] = i - 1
            /\ Len(E.probe) = (E.w[1] + 2) * (E.w[2] + 2) * (E.w[3] + 2)
            /\ \A k \in DOMAIN E.probe :
                  LET q == E.probe[k]  p == Cell([i \in Ax |-> E.o[i] - 1], [i \in Ax |-> E.w[i] + 2], k - 1)
                  IN  IF Inside(E.o, E.w, p) THEN q = <<Index(E.o, E.w, p), 1, 1>> ELSE q[2] = 0 /\ q[3] = 0
            /\ UNCHANGED <<w, reg, got>>
HugeStep == /\ Is("huge") /\ E.size = E.w \o <<0, 0>>
            /\ (\A k \in 1..Len(E.in) : \E p \in {[i \in Ax |-> E.ps[(3 * (k - 1)) + i]]} :
                  /\ E.in[k] = (\A i \in Ax : p[i] \in 0..(E.w[i] - 1))
                  /\ E.in[k] => \A i \in Ax : E.at[(3 * (k - 1)) + i] = p[i] /\ E.back[(3 * (k - 1)) + i] = p[i]) = TRUE
            /\ UNCHANGED <<w, reg, got>>
B(o, n) == [o |-> o, w |-> n]
Meet == /\ Is("meet")
        /\ LET b1 == B(E.o1, E.w1)  b2 == B(E.o2, E.w2)
           IN  /\ BoxShare(b1, b2, E.n) => E.r12 /\ E.r21
               /\ E.r12 \/ E.r21 => BoxNear(b1, b2, E.n)
               /\ E.u12 = BoxLineShare(b1, b2) /\ E.u21 = BoxLineShare(b1, b2)
        /\ UNCHANGED <<w, reg, got>>
Line == /\ Is("line")
        /\ LET m == BoxLineShare(B(E.o1, E.w1), B(E.o2, E.w2)) IN E.u12 = m /\ E.u21 = m
        /\ UNCHANGED <<w, reg, got>>
RelStep == /\ Is("rel") /\ Len(E.seg) = Len(E.ps) /\ Len(E.dom) = Len(E.ps)
           /\ \A k \in DOMAIN E.ps :
                 LET i == ((k - 1) % 3) + 1 IN
                 /\ E.seg[k] = Rel(E.ps[k], E.o[i], E.sub, E.n)
                 /\ E.dom[k] \in RelTo(E.ps[k], E.o[i], E.c[i], E.sub, E.n)
           /\ UNCHANGED <<w, reg, got>>
TraceNext == Load \/ Step \/ DotStep \/ NormStep \/ Sub1 \/ Mod1 \/ Tiny \/ GridStep \/ HugeStep \/ Meet \/ Line \/ RelStep
TraceSpec == TraceInit /\ [][TraceNext]_<<w, reg, got, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

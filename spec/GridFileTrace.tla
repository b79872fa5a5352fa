--------------------------- MODULE GridFileTrace ---------------------------
EXTENDS GridFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
TraceInit == l = 1 /\ disk = [f \in Files |-> Absent] /\ res = Failure
OK == E.outcome = "ok"
Failed == E.outcome \in {"err", "panic", "died"}

Begin  == Is("begin") /\ disk' = [f \in Files |-> Absent] /\ res' = Failure
TWrite == /\ Is("gtet") /\ OK
          /\ Write(E.f, [q |-> E.q, axis |-> E.axis, org |-> E.org, span |-> E.span, pw |-> E.pw, cells |-> E.cells,
                         particles |-> E.particles, skip |-> E.skip, z |-> E.z, om |-> E.om, ol |-> E.ol, h0 |-> E.h0, bw |-> E.bw],
                   E.vals, E.num, E.bits)
          /\ E.size = res'.v
          /\ Simple(E.q) => E.fin = disk'[E.f].fin
TCut    == Is("cut") /\ OK /\ Cut(E.f, E.k)
THeader == Is("rdgh") /\ ReadHeader(E.f) /\ IF res'.ok THEN OK /\ E.hd = res'.v ELSE Failed
Vals(v) == E.bits = v.bits /\ (disk[E.f].fin # <<>> => E.fin = v.fin)
TRead   == Is("rdg") /\ ReadGrid(E.f) /\ IF res'.ok THEN OK /\ E.kept /\ Vals(res'.v) ELSE Failed
TPyHeader == Is("pyh") /\ ReadHeader(E.f) /\ (res'.ok => OK /\ E.hd = res'.v)
TPyRead == Is("pyg") /\ PyReadGrid(E.f) /\ IF res'.ok THEN OK /\ Vals(res'.v) /\ E.shape = res'.v.shape ELSE Failed
(* what the reader prints when it is run as a script: whole numbers and names  *)
(* exactly, decimals (here in 64ths) to four significant digits               *)
Digits(p, v) == LET a == IF v < 0 THEN -64 * v ELSE 64 * v  d == IF p > 64 * v THEN p - 64 * v ELSE 64 * v - p
                IN  d <= (a \div 1900) + 1
Digits3(p, v) == \A d \in 1..3 : Digits(p[d], v[d])
TypeName(q) == CASE q = "Density" -> "Density" [] q = "DensityGradient" -> "Density Gradient" [] q = "Velocity" -> "Velocity"
                 [] q = "VelocityDivergence" -> "Velocity Divergence" [] q = "VelocityCurl" -> "Velocity Curl"
Prints(s, h, q) ==
    /\ s.hsize = h.hsize /\ s.gtype = TypeName(q) /\ s.vec = (IF h.vec = 1 THEN "True" ELSE "False") /\ s.order = "Little Endian"
    /\ s.particles = h.particles /\ s.total = h.total /\ s.skip = h.skip /\ s.porg = h.porg /\ s.pspan = h.pspan
    /\ s.axis = (CASE h.axis = 0 -> "X" [] h.axis = 1 -> "Y" [] h.axis = 2 -> "Z" [] OTHER -> "None")
    /\ Digits(s.z, h.z) /\ Digits(s.a, h.a) /\ Digits(s.om, h.om) /\ Digits(s.ol, h.ol) /\ Digits(s.h0, h.h0)
    /\ Digits(s.bw, h.bw) /\ Digits(s.pwid, h.pwid) /\ Digits3(s.lorg, h.lorg) /\ Digits3(s.lspan, h.lspan)
TPyShow == Is("pyp") /\ ReadHeader(E.f) /\ (res'.ok => OK /\ Prints(E.sh, res'.v, disk[E.f].r.q))
TraceNext == TPyShow \/ Begin \/ TWrite \/ TCut \/ THeader \/ TRead \/ TPyHeader \/ TPyRead
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

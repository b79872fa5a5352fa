-------------------------- MODULE GadgetFileTrace --------------------------
EXTENDS GadgetFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
TraceInit == l = 1 /\ disk = [f \in Files |-> Absent] /\ res = Failure
OK == E.outcome = "ok"
Failed == E.outcome \in {"err", "panic", "died"}

Begin   == Is("begin") /\ disk' = [f \in Files |-> Absent] /\ res' = Failure
TPut    == Is("gput") /\ OK /\ Put(E.f, E.c, E.bx, E.bv, E.bi)
TCut    == Is("cut") /\ OK /\ Cut(E.f, E.k)
TDamage == Is("gdamage") /\ OK /\ Damage(E.f)
THeader == /\ Is("gheader") /\ ReadHeader(E.f)
           /\ IF res'.ok THEN OK /\ E.hd = res'.hd ELSE Failed
TRead   == /\ Is("gadget") /\ Read(E.f)
           /\ IF res'.ok
              THEN OK /\ E.hd = res'.hd /\ E.ids = res'.ids /\ E.xs = res'.xs /\ E.vs = res'.vs
              ELSE Failed
TraceNext == Begin \/ TPut \/ TCut \/ TDamage \/ THeader \/ TRead
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

-------------------------- MODULE SheetFileTrace --------------------------
EXTENDS SheetFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
TraceInit == l = 1 /\ disk = [f \in Files |-> Absent] /\ res = Failure

(* header as reported: Count is replaced by the cube of CountWidth *)
OK == E.outcome = "ok"
Got(v) == IF OK THEN Success(v) ELSE Failure
(* a failing read says so: error, panic, or the process gives up *)
Failed == E.outcome \in {"err", "panic", "died"}

Step(A) == /\ A /\ (res'.ok => OK) /\ (~res'.ok => Failed)
Begin == Is("begin") /\ disk' = [f \in Files |-> Absent] /\ res' = Failure
TWrite == Is("write") /\ OK /\ Write(E.f, E.hexp, E.xs, E.vs)
TCut   == Is("cut") /\ OK /\ Cut(E.f, E.k)
TForeign == Is("foreign") /\ OK /\ Foreign(E.f)
TBig   == Is("big") /\ OK /\ Reencode(E.f)
TRemove == Is("remove") /\ OK /\ Remove(E.f)
TReadHeader == Is("rdh") /\ Step(ReadHeader(E.f)) /\ (res'.ok => E.h = res'.val)
TReadPos == Is("rdx") /\ Step(ReadPos(E.f, 3 * E.n)) /\ (res'.ok => E.out = res'.val)
TReadVel == Is("rdv") /\ Step(ReadVel(E.f, 3 * E.n)) /\ (res'.ok => E.out = res'.val)
TraceNext == Begin \/ TWrite \/ TCut \/ TForeign \/ TBig \/ TRemove \/ TReadHeader \/ TReadPos \/ TReadVel
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

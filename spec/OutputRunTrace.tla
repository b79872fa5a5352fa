--------------------------- MODULE OutputRunTrace ---------------------------
(* Recorded attempts of a command at writing its files under faults, as       *)
(* steps of OutputRun (a whole run is one step here): the state is what every *)
(* output file was last seen to be (absent, partial, complete).               *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, plan, disk
TraceInit == l = 1 /\ plan = 0 /\ disk = <<>>
E == Trace[l]
P == Trace[plan]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
(* the undisturbed first run tells names and sizes *)
Plan == /\ Is("plan") /\ E.outcome = "ok" /\ Len(E.names) > 0 /\ Len(E.sizes) = Len(E.names)
        /\ plan' = l /\ disk' = [i \in 1..Len(E.names) |-> "absent"]
Complete(e) == \A i \in 1..Len(P.names) : e.state[i] = "complete"
(* one file's name may have been taken by the fault *)
SameDisk(e) == \A i \in 1..Len(P.names) : i = e.file \/ e.before[i] = disk[i]
Fits(e) == \A i \in 1..Len(P.names) : P.sizes[i] <= e.limit
Expected(e) ==
    CASE e.fault \in {"none", "junk"} -> {"ok"}
      [] e.fault = "limit" -> IF Fits(e) THEN {"ok"} ELSE {"refused"}
      [] e.fault \in {"full", "dir", "stray", "noin", "noout"} -> {"refused"}
      [] e.fault = "kill" -> {"killed", "ok"}
(* inputs that cannot be used are noticed before anything is written *)
Untouched(e) == e.fault \in {"stray", "noin", "noout"} => e.state = e.before
Attempt == /\ Is("attempt") /\ Len(E.state) = Len(P.names) /\ SameDisk(E)
           /\ (E.outcome \in Expected(E)) = TRUE
           /\ E.outcome = "ok" => Complete(E)
           /\ Untouched(E)
           /\ \A i \in 1..Len(P.names) : (i # E.file /\ E.before[i] # "absent") => E.state[i] # "absent"
           /\ E.kept /\ E.others = <<>>
           /\ plan' = plan /\ disk' = E.state
TraceNext == Plan \/ Attempt
TraceSpec == TraceInit /\ [][TraceNext]_<<l, plan, disk>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

---------------------------- MODULE ConfigTrace ----------------------------
(* Real bounds files, example configurations and command runs. *)
EXTENDS ConfRules, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Elems(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
(* every entry gives exactly one region; an invalid one makes the file invalid; E.u = width
   of the simulation in the units of the event *)
BoundsOK ==
   IF E.broken \/ \E i \in 1..Len(E.regions) : ~RegionValid(E.regions[i], E.u) THEN E.outcome = "err"
   ELSE LET want == [i \in 1..Len(E.regions) |-> RegionOf(E.regions[i], E.u)] IN
        /\ E.outcome = "ok" /\ Len(E.got) = Len(want)
        /\ \A i \in 1..Len(want) : Count(E.got, want[i]) = Count(want, want[i])
TBounds == Is("bounds") /\ BoundsOK
(* an example configuration with the parameters E.on switched on: E.shown are the values
   in the text, E.vals what was read *)
TParse == /\ Is("parse") /\ E.outcome = "ok"
   /\ DOMAIN E.shown = Required(E.sec) \cup Optional(E.sec)
   /\ Elems(E.on) \subseteq Optional(E.sec)
   /\ DOMAIN E.vals = DOMAIN E.shown
   /\ \A p \in DOMAIN E.vals : E.vals[p] = IF p \in Required(E.sec) \cup Elems(E.on) THEN E.shown[p] ELSE Default(E.sec, p)
(* the example of a bounds entry with the parameters E.on switched on *)
TExRegion == /\ Is("exregion") /\ Elems(E.shown) = Required(E.sec) \cup Optional(E.sec) /\ Elems(E.on) \subseteq Optional(E.sec)
             /\ Len(E.regions) = 1 /\ E.regions[1].kind = E.sec
             /\ (E.regions[1].axis # "") = ("ProjectionAxis" \in Elems(E.on))
             /\ (E.regions[1].m2 # 0) = ("RadiusMultiplier" \in Elems(E.on))
             /\ BoundsOK
(* the validity predicates *)
TValid == /\ Is("valid") /\ E.outcome = "ok"
   /\ LET v == E.v  f == E.f IN
      CASE E.sec = "Render" -> /\ v.ValidTotalPixels = (f.tp > 0) /\ v.ValidImagePixels = (f.ip > 0) /\ v.ValidParticles = (f.pts > 0)
                               /\ v.ValidSubsampleLength = PowTwo(f.skip) /\ v.ValidProjectionDepth = (f.pd > 0)
                               /\ v.ValidQuantity = (f.q \in Quantities) /\ v.ValidInput = (f.in # "") /\ v.ValidOutput = (f.out # "")
                               /\ v.ValidLogFile = (f.log # "") /\ v.ValidProfileFile = (f.prof # "")
        [] E.sec = "ConvertSnapshot" -> /\ v.ValidCells = (f.cells > 0) /\ v.ValidGadget2IDSize = (f.idsize \in {32, 64})
                               /\ v.ValidInputFormat = (f.fmt # "") /\ v.ValidIteratedInput = (f.iin # "") /\ v.ValidIteratedOutput = (f.iout # "")
                               /\ v.ValidIterationStart = (f.start >= 0) /\ v.ValidIterationEnd = (f.end >= 0)
                               /\ v.ValidInput = (f.in # "") /\ v.ValidOutput = (f.out # "")
                               /\ v.ValidLogFile = (f.log # "") /\ v.ValidProfileFile = (f.prof # "")
        [] OTHER -> /\ v.ValidSubsampleLength = PowTwo(f.skip) /\ v.ValidHistBins = (f.bins > 0) /\ v.ValidParticles = (f.pts > 0)
                    /\ v.ValidHistScale = (f.scale \in {"Linear", "Log"}) /\ v.ValidQuantity = (f.q = "Density") /\ v.ValidGridFile = (f.grid # "")
                    /\ v.ValidHistScale => (v.ValidHistMin /\ v.ValidHistMax) = LimitsValid(f)
                    /\ v.ValidInput = (f.in # "") /\ v.ValidOutput = (f.out # "")
                    /\ v.ValidLogFile = (f.log # "") /\ v.ValidProfileFile = (f.prof # "")
(* whole commands: a valid configuration runs and writes its files (and the log and profile
   it asks for), any other is refused and writes nothing *)
Runs(valid, files) == IF valid /\ ~E.broken
   THEN E.outcome = "ok" /\ files /\ (E.log => E.logged) /\ (E.prof => E.profiled)
   ELSE E.outcome = "refused" /\ E.wrote = <<>>
TConvert == /\ Is("convertcli") /\ Runs(ConvertValid(E), Cardinality(Elems(E.wrote)) = E.cells * E.cells * E.cells)
THist == /\ Is("tetrahistcli") /\ Runs(TetraHistValid(E) /\ E.bounds = "ok", Elems(E.wrote) = {E.pre \o "b" \o E.app \o ".txt"})
TRender == /\ Is("rendercli") /\ Runs(RenderValid(E) /\ E.bounds = "ok", Elems(E.wrote) = {E.pre \o "b" \o E.app \o ".gtet"})
(* the example flag and the mode flags *)
TExample == /\ Is("example") /\ (E.outcome = "ok") = (E.arg \in Sections) /\ (E.outcome = "ok" => E.head = E.arg)
            /\ E.outcome \in {"ok", "refused"}
TraceInit == l = 1
TraceNext == TBounds \/ TParse \/ TExRegion \/ TValid \/ TConvert \/ THist \/ TRender \/ TExample
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

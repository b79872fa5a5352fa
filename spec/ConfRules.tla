----------------------------- MODULE ConfRules -----------------------------
(* What the documentation of the configuration files says: the parameters of every
   section, which of them are required, which values are valid, and which region of the
   simulation box a bounds entry stands for. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sections == {"Render", "ConvertSnapshot", "TetraHist", "Box", "Ball"}
Required(s) == CASE s = "Render" -> {"Quantity", "Input", "Output", "TotalPixels", "Particles"}
                 [] s = "ConvertSnapshot" -> {"Input", "Output", "InputFormat", "Cells"}
                 [] s = "TetraHist" -> {"Quantity", "HistMin", "HistMax", "HistBins", "HistScale", "Particles", "Input", "Output", "GridFile"}
                 [] s = "Box" -> {"X", "Y", "Z", "XWidth", "YWidth", "ZWidth"}
                 [] OTHER -> {"X", "Y", "Z", "Radius"}
Optional(s) == CASE s = "Render" -> {"ImagePixels", "SubsampleLength", "PrependName", "AppendName", "ProfileFile", "LogFile", "AutoParticles", "ProjectionDepth"}
                 [] s = "ConvertSnapshot" -> {"Gadget2IDSize", "ProfileFile", "LogFile", "IteratedInput", "IteratedOutput", "IterationStart",
                                              "IterationEnd", "XUnits", "VUnits", "MUnits"}
                 [] s = "TetraHist" -> {"SubsampleLength", "PrependName", "AppendName", "ProfileFile", "LogFile"}
                 [] s = "Box" -> {"ProjectionAxis"}
                 [] OTHER -> {"ProjectionAxis", "RadiusMultiplier"}
(* the value of an optional parameter that is not given *)
Default(s, p) == CASE p = "SubsampleLength" -> "1" [] p = "Gadget2IDSize" -> "64" [] p = "IterationStart" -> "0" [] p = "IterationEnd" -> "-1"
                   [] p \in {"XUnits", "VUnits", "MUnits"} -> "1" [] p = "AutoParticles" -> "false"
                   [] p \in {"ImagePixels", "ProjectionDepth", "TotalPixels", "Particles", "Cells", "HistMin", "HistMax", "HistBins"} -> "0"
                   [] OTHER -> ""
RECURSIVE PowTwo(_)
PowTwo(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ PowTwo(n \div 2))

(* ---- regions; u = width of the simulation box in units ---- *)
Mult2(r) == IF r.m2 = 0 THEN 2 ELSE r.m2                 \* twice the radius multiplier; 0 = not given
AxisName(a) == CASE a \in {"x", " x", "X ", " X "} -> "X" [] a \in {"y", "Y "} -> "Y" [] a \in {"z", " Z"} -> "Z" [] OTHER -> a
RegionValid(r, u) ==
   /\ \A d \in 1..3 : 0 <= r.X[d] /\ r.X[d] < u
   /\ AxisName(r.axis) \in {"", "X", "Y", "Z"}
   /\ IF r.kind = "Box" THEN \A d \in 1..3 : 0 < r.W[d] /\ r.W[d] <= u
      ELSE r.r > 0 /\ Mult2(r) > 0 /\ r.r * Mult2(r) <= u
RegionOf(r, u) == LET h == r.r * Mult2(r) IN             \* h = the width of a ball's cube
   [name |-> r.name, axis |-> AxisName(r.axis),
    X |-> IF r.kind = "Box" THEN r.X ELSE [d \in 1..3 |-> (r.X[d] - (h \div 2)) % u],
    W |-> IF r.kind = "Box" THEN r.W ELSE <<h, h, h>>]

(* ---- configurations ---- *)
Quantities == {"Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl"}
RenderValid(c) == /\ c.input /\ c.output /\ c.q \in Quantities /\ PowTwo(c.skip)
                  /\ (c.tp > 0 \/ c.ip > 0) /\ (c.pts > 0 \/ c.pd > 0 \/ c.auto)
ConvertValid(c) == /\ c.input \/ c.iinput
                   /\ c.output \/ c.ioutput
                   /\ c.iinput = c.ioutput
                   /\ c.cells > 0 /\ c.idsize \in {32, 64} /\ c.fmt \in {"LGadget-2", "Arepo-type-2"}
LimitsValid(c) == c.min < c.max /\ (c.scale = "Log" => c.min > 0)
TetraHistValid(c) == /\ c.input /\ c.output /\ c.grid /\ c.q = "Density" /\ PowTwo(c.skip)
                     /\ c.scale \in {"Linear", "Log"} /\ LimitsValid(c) /\ c.bins > 0 /\ c.pts > 0
=============================================================================

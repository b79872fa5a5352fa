----------------------------- MODULE CosmoTrace -----------------------------
(* Recorded background quantities: in units of today's, times 2^k.           *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
F == INSTANCE Friedmann
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == l = 1
E == Trace[l]
At(n) == l <= Len(Trace) /\ E.e = n /\ E.outcome = "ok" /\ l' = l + 1
(* the critical density 3 H^2 / 8 pi G of h = 1 is 2.775e11 solar masses per Mpc^3; in h units it does not depend on H0 *)
Today(rho) == rho >= 277450 /\ rho <= 277650
Background == /\ At("bg")
              /\ F!Is(E.h2, F!H2(E.a, E.n), E.k) /\ F!Is(E.rhoc, F!H2(E.a, E.n), E.k) /\ F!Is(E.rhom, F!Mean(E.a, E.n), E.k)
              /\ Today(E.today)
(* what is written into grid headers: <<z, scale factor, Omega_m, Omega_L, H0, box width>>, densities as above *)
Header == /\ At("info")
          /\ F!Is(E.rhoc, F!H2(E.a, E.n), E.k) /\ F!Is(E.rhom, F!Mean(E.a, E.n), E.k)
          /\ E.z = 8 * E.n /\ F!Is(E.scale, <<8, 8 + E.n>>, 20) /\ E.om = E.a /\ E.ol = 1000 - E.a /\ E.h0 = E.hub /\ E.w = E.width
TraceNext == Background \/ Header
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

--------------------------- MODULE DepositTrace ---------------------------
(* Traces of the real boxes: regions requested, segments deposited, grids read. *)
EXTENDS BoxRules, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES boxes, l
vars == <<boxes, l>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
OK == E.outcome = "ok"
(* ---- C10: a requested region maps to the pixels that cover it ---- *)
TBox == Is("newbox") /\ OK /\ BoxOK(E) /\ boxes' = (E.bid :> TLCEval(BoxOf(E))) @@ boxes
THeader == /\ Is("hdcb") /\ OK /\ UNCHANGED boxes
           /\ LET r == Region(E.O, E.Wd, E.sub) IN E.co = r.org /\ E.cs = r.span

(* ---- C07: deposits ---- *)
TDeposit == /\ Is("deposit") /\ OK
            /\ LET b == boxes[E.bid]
                   n == Len(E.pts) \div 3
                   vec == Vector(b.q)
                   ix == TLCEval([k \in 1..n |-> Idx(b, <<E.pts[3*k-2], E.pts[3*k-1], E.pts[3*k]>>)])
                   W(k, c) == E.ptv * (IF E.wts = <<>> THEN 4 ELSE IF vec THEN E.wts[3*k-3+c] ELSE E.wts[k])
               IN boxes' = (E.bid :> Deposited(b, ix, W)) @@ boxes
TVals == Is("vals") /\ OK /\ UNCHANGED boxes /\ ValsOK(boxes[E.bid], E)
Begin == Is("begin") /\ boxes' = <<>>
TraceInit == l = 1 /\ boxes = <<>>
TraceNext == Begin \/ TBox \/ THeader \/ TDeposit \/ TVals
TraceSpec == TraceInit /\ [][TraceNext]_vars
(* what has been deposited is never more than the points say: counts and mass agree *)
CountsRight == \A id \in DOMAIN boxes : LET b == boxes[id] IN Len(b.cnt) = b.n /\ Len(b.sum) = Comp(b.q) * b.n
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================

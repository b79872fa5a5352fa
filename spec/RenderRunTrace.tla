-------------------------- MODULE RenderRunTrace --------------------------
(* Traces of real render runs over sheet files whose particles all sit in one point
   (collapsed sheets: their whole mass must arrive in one pixel) or anywhere inside their
   header's bounds (then the mass of a box that is the whole simulation is checked).
   Positions are in 640ths of the simulation width; run steps come from the verif hooks
   and must be steps of RenderRun: every file that reaches a box is worked on once, every
   worker starts, finishes and is merged once, a merge only after the worker is done.
   A manager can be asked for more: what the further files (some of them rewritten in the
   meantime) deposit comes on top. *)
EXTENDS BoxRules, FiniteSets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sheets, run, seen, act, l
vars == <<sheets, run, seen, act, l>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Idle == [started |-> {}, done |-> {}, merged |-> {}]
NoRun == [files |-> <<>>]
Sheet(f) == Trace[sheets[f]]           \* files are remembered by the line that made them
Begin == Is("begin") /\ sheets' = <<>> /\ run' = NoRun /\ seen' = {} /\ act' = Idle
TSheet == Is("sheet") /\ E.outcome = "ok" /\ sheets' = (E.f :> l) @@ sheets /\ UNCHANGED <<run, seen, act>>
Settled == act.started = act.merged
(* a deposit: the file as it was when it was read *)
Parts(files, skip) == [i \in DOMAIN files |-> [at |-> sheets[files[i]], skip |-> skip]]
TRun == Is("run") /\ E.outcome = "ok" /\ run' = [parts |-> Parts(E.files, E.skip)] @@ E /\ seen' = {} /\ act' = Idle /\ UNCHANGED sheets
TMore == /\ Is("more") /\ E.outcome = "ok" /\ Settled /\ seen' = {} /\ act' = Idle /\ UNCHANGED sheets
         /\ run' = [run EXCEPT !.parts = @ \o Parts(E.files, E.skip), !.files = E.files, !.hooked = E.hooked]
BoxRec(i) == LET b == run.boxes[i] IN BoxOf([X |-> b.X, W |-> b.W, sub |-> 640 \div b.cells, axis |-> b.axis, cells |-> b.cells, q |-> run.q])
PSheet(k) == Trace[run.parts[k].at]
Deposits == DOMAIN run.parts
Files == {run.files[i] : i \in DOMAIN run.files}
Region0(f, cells) == Region(Sheet(f).O, Sheet(f).Wd, 640 \div cells)
Near(f, i) == LET c == run.boxes[i].cells IN Meets3(Region0(f, c), Region(run.boxes[i].X, run.boxes[i].W, 640 \div c), c)
(* does the sheet put anything into the box? *)
Collapsed(f) == Len(Sheet(f).P) = 3
Pixel(k, i) == Idx(BoxRec(i), PSheet(k).P)
TLoad == Is("load") /\ Settled /\ E.f \in Files /\ UNCHANGED <<sheets, run, seen, act>>
TBegin == /\ Is("begin_box") /\ Settled /\ E.f \in Files /\ E.id + 1 \in 1..Len(run.boxes)
          /\ <<E.f, E.id + 1>> \notin seen /\ seen' = seen \cup {<<E.f, E.id + 1>>}
          /\ act' = Idle /\ UNCHANGED <<sheets, run>>
TStart == Is("start") /\ E.id \notin act.started /\ act' = [act EXCEPT !.started = @ \cup {E.id}] /\ UNCHANGED <<sheets, run, seen>>
TDone == Is("done") /\ E.id \in act.started \ act.done /\ act' = [act EXCEPT !.done = @ \cup {E.id}] /\ UNCHANGED <<sheets, run, seen>>
TMerge == Is("merge") /\ E.id \in act.done \ act.merged /\ act' = [act EXCEPT !.merged = @ \cup {E.id}] /\ UNCHANGED <<sheets, run, seen>>
TRan == /\ Is("ran") /\ Settled /\ UNCHANGED <<sheets, run, seen, act>>
        /\ run.hooked => \A i \in 1..Len(run.boxes) : \A f \in Files : Near(f, i) => <<f, i>> \in seen
(* mass of a whole sheet in eighths of a pixel's mean mass; samples of a whole sheet *)
Cube(n) == n * n * n
Mass(k, cells) == Cube(PSheet(k).segw) * Cube((2 * cells) \div PSheet(k).cw)
Samples(k, i) == 6 * run.boxes[i].pts * Cube(PSheet(k).segw \div run.parts[k].skip)
Add(g, f) == g + f
SumOver(S, g(_)) == FoldLeft(LAMBDA a, f : a + g(f), 0, SetToSeq(S))
TVals == /\ Is("vals") /\ E.outcome = "ok" /\ ~E.total /\ UNCHANGED <<sheets, run, seen, act>>
   /\ LET b == TLCEval(BoxRec(E.b))
          vec == Vector(b.q)
          D == IF b.proj # 0 /\ ~vec THEN b.span[b.proj] ELSE 1
          pix == TLCEval([f \in Deposits |-> Pixel(f, E.b)])
          Here(p) == {f \in Deposits : pix[f] = p}
          hit == {pix[f] : f \in Deposits} \ {0}
      IN /\ Len(E.vals) = Comp(b.q) * b.n
         /\ Len(E.cnt) = IF vec THEN b.n ELSE 0
         /\ \A p \in 1..b.n : IF p \notin hit
              THEN /\ \A c \in 1..Comp(b.q) : E.vals[Comp(b.q) * (p - 1) + c] = 0
                   /\ vec => E.cnt[p] = 0
              ELSE IF vec
              THEN /\ E.cnt[p] = SumOver(Here(p), LAMBDA f : Samples(f, E.b))
                   /\ \A c \in 1..3 : LET want == SumOver(Here(p), LAMBDA f : Samples(f, E.b) * PSheet(f).V[c]) * (E.scale \div 4)
                        IN Abs(E.vals[3 * p - 3 + c] - want) <= 2 + Abs(want) \div 4096 + E.cnt[p] \div 64
              ELSE LET want == SumOver(Here(p), LAMBDA f : Mass(f, b.cells)) * (E.scale \div 8)
                   IN Abs(E.vals[p] * D - want) <= D + want \div 65536
(* a box as large as the simulation holds everything, wherever the particles are *)
TTotal == /\ Is("vals") /\ E.outcome = "ok" /\ E.total /\ UNCHANGED <<sheets, run, seen, act>>
   /\ LET b == TLCEval(BoxRec(E.b))
          vec == Vector(b.q)
          D == IF b.proj # 0 /\ ~vec THEN b.span[b.proj] ELSE 1
          all == b.span = <<b.cells + 1, b.cells + 1, b.cells + 1>>
          m == SumOver(Deposits, LAMBDA f : Mass(f, b.cells)) * (E.scale \div 8)
          k == SumOver(Deposits, LAMBDA f : Samples(f, E.b))
      IN /\ E.len = b.n
         /\ IF vec THEN IF all THEN E.n = k ELSE E.n <= k
            ELSE IF all THEN Abs(E.sum[1] * D - m) <= D + m \div 65536
                 ELSE E.sum[1] >= 0 /\ E.sum[1] * D <= m + D + m \div 65536
TraceInit == l = 1 /\ sheets = <<>> /\ run = NoRun /\ seen = {} /\ act = Idle
TraceNext == Begin \/ TSheet \/ TRun \/ TMore \/ TLoad \/ TBegin \/ TStart \/ TDone \/ TMerge \/ TRan \/ TVals \/ TTotal
TraceSpec == TraceInit /\ [][TraceNext]_vars
MergedOnlyDone == act.merged \subseteq act.done /\ act.done \subseteq act.started
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================

----------------------------- MODULE RenderRun -----------------------------
(* Design model of a render run (render/render.go, main.go renderMain): the configuration
   is checked, every sheet file that reaches a box is loaded once and, box by box, worked
   on by concurrent workers with private buffers that are merged into the box one at a
   time through a channel; when all files are done one output per box is written.
   A contribution is a token <<file, box, worker>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Files, Boxes, W
VARIABLES valid, reach, order, phase, cur, todoBoxes, wstate, ws, chan, grid, out
vars == <<valid, reach, order, phase, cur, todoBoxes, wstate, ws, chan, grid, out>>
Workers == 0..(W - 1)
None == CHOOSE x : x \notin Files
Zero == [t \in Files \X Boxes \X Workers |-> 0]
Perms == {p \in [1..Cardinality(Files) -> Files] : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}

Init == /\ valid \in BOOLEAN /\ reach \in SUBSET (Files \X Boxes) /\ order \in Perms
        /\ phase = "check" /\ cur = <<0, 0>> /\ todoBoxes = {} /\ wstate = [w \in Workers |-> "off"]
        /\ ws = [w \in Workers |-> Zero] /\ chan = {} /\ grid = [b \in Boxes |-> Zero] /\ out = {}
Check == /\ phase = "check" /\ phase' = IF valid THEN "files" ELSE "refused"
         /\ UNCHANGED <<valid, reach, order, cur, todoBoxes, wstate, ws, chan, grid, out>>
(* files that reach no box are left out *)
Load == /\ phase = "files" /\ cur[1] < Len(order) /\ cur' = <<cur[1] + 1, 0>>
        /\ todoBoxes' = {b \in Boxes : <<order[cur[1] + 1], b>> \in reach}
        /\ phase' = "boxes" /\ UNCHANGED <<valid, reach, order, wstate, ws, chan, grid, out>>
Begin(b) == /\ phase = "boxes" /\ b \in todoBoxes /\ todoBoxes' = todoBoxes \ {b} /\ cur' = <<cur[1], b>>
            /\ ws' = [w \in Workers |-> Zero]                    \* buffers are cleared
            /\ wstate' = [w \in Workers |-> "ready"] /\ phase' = "work"
            /\ UNCHANGED <<valid, reach, order, chan, grid, out>>
Start(w) == /\ phase = "work" /\ wstate[w] = "ready" /\ wstate' = [wstate EXCEPT ![w] = "busy"]
            /\ UNCHANGED <<valid, reach, order, phase, cur, todoBoxes, ws, chan, grid, out>>
Deposit(w) == /\ wstate[w] = "busy" /\ wstate' = [wstate EXCEPT ![w] = "done"]
              /\ ws' = [ws EXCEPT ![w][<<order[cur[1]], cur[2], w>>] = @ + 1]
              /\ UNCHANGED <<valid, reach, order, phase, cur, todoBoxes, chan, grid, out>>
Send(w) == /\ wstate[w] = "done" /\ wstate' = [wstate EXCEPT ![w] = "sent"] /\ chan' = chan \cup {w}
           /\ UNCHANGED <<valid, reach, order, phase, cur, todoBoxes, ws, grid, out>>
(* the main goroutine is the last worker: it merges only after its own share *)
Merge(w) == /\ phase = "work" /\ w \in chan /\ wstate[W - 1] \in {"sent", "merged"} /\ chan' = chan \ {w}
            /\ wstate' = [wstate EXCEPT ![w] = "merged"]
            /\ grid' = [grid EXCEPT ![cur[2]] = [t \in DOMAIN @ |-> @[t] + ws[w][t]]]
            /\ UNCHANGED <<valid, reach, order, phase, cur, todoBoxes, ws, out>>
BoxDone == /\ phase = "work" /\ \A w \in Workers : wstate[w] = "merged" /\ phase' = "boxes"
           /\ UNCHANGED <<valid, reach, order, cur, todoBoxes, wstate, ws, chan, grid, out>>
FileDone == /\ phase = "boxes" /\ todoBoxes = {} /\ phase' = "files"
            /\ UNCHANGED <<valid, reach, order, cur, todoBoxes, wstate, ws, chan, grid, out>>
Write(b) == /\ phase = "files" /\ cur[1] = Len(order) /\ b \notin {o.b : o \in out}
            /\ out' = out \cup {[b |-> b, vals |-> grid[b]]}
            /\ UNCHANGED <<valid, reach, order, phase, cur, todoBoxes, wstate, ws, chan, grid>>
Next == \/ Check \/ Load \/ BoxDone \/ FileDone
        \/ \E b \in Boxes : Begin(b) \/ Write(b)
        \/ \E w \in Workers : Start(w) \/ Deposit(w) \/ Send(w) \/ Merge(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Token(t) == IF <<t[1], t[2]>> \in reach THEN 1 ELSE 0
(* what is written is every contribution of every file that reaches the box, once *)
OutRight == \A o \in out : \A t \in Files \X Boxes \X Workers :
   o.vals[t] = IF t[2] = o.b THEN Token(t) ELSE 0
(* grids never hold a contribution twice or one that belongs elsewhere *)
NeverTwice == \A b \in Boxes : \A t \in Files \X Boxes \X Workers : grid[b][t] <= (IF t[2] = b THEN Token(t) ELSE 0)
Refused == ~valid => out = {} /\ phase \in {"check", "refused"}
Finishes == <>(phase = "refused" \/ {o.b : o \in out} = Boxes)
============================================================================

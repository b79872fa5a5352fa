------------------------------ MODULE HistRun ------------------------------
(* Design model of a histogram run: the cubes of the (sub)sampled segment are dealt out to
   W workers by position in the walk, every worker clears its own histogram, adds the
   samples of its cubes that reach the box, and is merged once, in any order; then the next
   box.  Cube c holds Vals[c] (0 = outside the box): the bin its sample falls in. *)
EXTENDS Integers, FiniteSets
CONSTANTS Segw, Skips, Bins, W, Boxes
VARIABLES skip, val, box, done, todo, hist, wst, total
vars == <<skip, val, box, done, todo, hist, wst, total>>
Workers == 0..(W - 1)
Cubes == {c \in 0..(Segw - 1) : c % skip = 0}              \* one axis stands for the walk
Ord(c) == c \div skip
Zero == [b \in 1..Bins |-> 0]
Init == /\ skip \in Skips /\ val \in [0..(Segw - 1) -> [Boxes -> 0..Bins]]
        /\ box = 0 /\ done = {} /\ todo = [w \in Workers |-> {}] /\ hist = [w \in Workers |-> Zero]
        /\ wst = [w \in Workers |-> "merged"] /\ total = [b \in Boxes |-> Zero]
Begin(b) == /\ b \notin done /\ \A w \in Workers : wst[w] = "merged" /\ box' = b /\ done' = done \cup {b}
            /\ wst' = [w \in Workers |-> "new"] /\ UNCHANGED <<skip, val, todo, hist, total>>
Start(w) == /\ wst[w] = "new" /\ wst' = [wst EXCEPT ![w] = "busy"] /\ hist' = [hist EXCEPT ![w] = Zero]
            /\ todo' = [todo EXCEPT ![w] = {c \in Cubes : Ord(c) % W = w}] /\ UNCHANGED <<skip, val, box, done, total>>
Cube(w, c) == /\ wst[w] = "busy" /\ c \in todo[w] /\ todo' = [todo EXCEPT ![w] = @ \ {c}]
              /\ hist' = IF val[c][box] = 0 THEN hist ELSE [hist EXCEPT ![w][val[c][box]] = @ + 1]
              /\ UNCHANGED <<skip, val, box, done, wst, total>>
Done(w) == /\ wst[w] = "busy" /\ todo[w] = {} /\ wst' = [wst EXCEPT ![w] = "done"] /\ UNCHANGED <<skip, val, box, done, todo, hist, total>>
Merge(w) == /\ wst[w] = "done" /\ wst' = [wst EXCEPT ![w] = "merged"]
            /\ total' = [total EXCEPT ![box] = [i \in 1..Bins |-> @[i] + hist[w][i]]]
            /\ UNCHANGED <<skip, val, box, done, todo, hist>>
Next == (\E b \in Boxes : Begin(b)) \/ \E w \in Workers : Start(w) \/ Done(w) \/ Merge(w) \/ \E c \in 0..(Segw - 1) : Cube(w, c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Want(b, i) == Cardinality({c \in Cubes : val[c][b] = i})
Once == \A b \in Boxes : \A i \in 1..Bins : total[b][i] <= Want(b, i)
Finished(b) == b \in done /\ (box # b \/ \A w \in Workers : wst[w] = "merged")
Right == \A b \in Boxes : Finished(b) => \A i \in 1..Bins : total[b][i] = Want(b, i)
Ends == <>(\A b \in Boxes : Finished(b))
============================================================================

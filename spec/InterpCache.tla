---------------------------- MODULE InterpCache ----------------------------
(* Design model of the row caches of bicubic and tricubic interpolators: what *)
(* the inner splines were built for, as evaluations (also refused ones, whose *)
(* coordinates lie outside the table) follow one another. An answer is named  *)
(* by the coordinates its splines were built for.                             *)
EXTENDS Integers, TLC
CONSTANTS Xs, Bad
Pts == Xs \union {Bad}
VARIABLES lastY, lastZ,     \* what the caches are labelled with (0: nothing)
          forZ, forY, forYZ, \* what the y splines (z) and the x spline (y, z) really hold
          asked, answer
vars == <<lastY, lastZ, forZ, forY, forYZ, asked, answer>>
First == CHOOSE v \in Xs : TRUE
Init == lastY = First /\ lastZ = First /\ forZ = First /\ forY = First /\ forYZ = First /\ asked = <<First, First, First>> /\ answer = <<First, First>>
Eval(x, y, z) ==
    /\ asked' = <<x, y, z>>
    /\ LET redoZ == z # lastZ
           badZ  == redoZ /\ z = Bad
           lz == IF redoZ /\ ~badZ THEN z ELSE lastZ
           fz == IF redoZ /\ ~badZ THEN z ELSE forZ
           ly == IF redoZ THEN 0 ELSE lastY          \* the x spline is out of date
           redoY == ~badZ /\ y # ly
           badY  == redoY /\ y = Bad
       IN  /\ lastZ' = lz /\ forZ' = fz
           /\ lastY' = IF redoY /\ ~badY THEN y ELSE ly
           /\ forY'  = IF redoY /\ ~badY THEN y ELSE forY
           /\ forYZ' = IF redoY /\ ~badY THEN fz ELSE forYZ
           /\ answer' = IF badZ \/ badY \/ x = Bad THEN <<>> ELSE <<forY', forYZ'>>
Next == \E x, y, z \in Pts : Eval(x, y, z)
Spec == Init /\ [][Next]_vars
Memoryless == answer = IF \E k \in 1..3 : asked[k] = Bad THEN <<>> ELSE <<asked[2], asked[3]>>
=============================================================================

--------------------------- MODULE RandomStreams ---------------------------
(* Generators: each holds a position in the stream its type and seed name.   *)
(* Values are drawn singly or in batches, by several generators in turn.     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Gens, Keys, Length
VARIABLES key, pos, got
vars == <<key, pos, got>>
Stream(k, i) == <<k, i>>
Init == key = [g \in Gens |-> 0] /\ pos = [g \in Gens |-> 0] /\ got = [g \in Gens |-> <<>>]
Make(g, k) == key' = [key EXCEPT ![g] = k] /\ pos' = [pos EXCEPT ![g] = 0] /\ got' = [got EXCEPT ![g] = <<>>]
Take(g, n) == pos' = [pos EXCEPT ![g] = @ + n] /\ UNCHANGED key
Draw(g, n) == /\ key[g] # 0 /\ pos[g] + n <= Length /\ Take(g, n)
              /\ got' = [got EXCEPT ![g] = @ \o [i \in 1..n |-> Stream(key[g], pos[g] + i)]]
Next == \E g \in Gens : (\E k \in Keys : Make(g, k)) \/ \E n \in 0..3 : Draw(g, n)
Spec == Init /\ [][Next]_vars
(* what a generator gave is the beginning of its stream, however it was drawn and whatever others did *)
ChunkFree == \A g \in Gens : got[g] = [i \in 1..pos[g] |-> Stream(key[g], i)]
=============================================================================

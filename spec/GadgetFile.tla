---------------------------- MODULE GadgetFile ----------------------------
(* C04.  Gadget-2 catalogue files: the same particles under any encoding     *)
(* (byte order, ID width, block precision), possibly cut short or with a     *)
(* damaged block marker; read back in the order they were written with.      *)
EXTENDS Integers, Sequences, TLC

CONSTANT Files
VARIABLES disk, res
vars == <<disk, res>>

Failure == [ok |-> FALSE, hd |-> <<>>, xs |-> <<>>, vs |-> <<>>, ids |-> <<>>]

(* Bytes: marker(4) header(256) marker(4) marker(4) xs marker(4) marker(4) vs *)
(* marker(4) marker(4) ids [marker(4)]; bx, bv: bytes per coordinate,         *)
(* bi: bytes per ID.                                                          *)
HeaderEnd        == 260
End(n, bx, bv, bi) == 284 + 3 * n * bx + 3 * n * bv + n * bi
FileLen(n, bx, bv, bi) == End(n, bx, bv, bi) + 4

(* positions are put back into the box by one box width, velocities are      *)
(* multiplied by sqrt(a) (ra of its units, quarters or 4096ths)              *)
Wrap(x, B)    == IF x < 0 THEN x + B ELSE IF x >= B THEN x - B ELSE x
Wrapped(c)    == [i \in 1..Len(c.pos) |-> Wrap(c.pos[i], c.box)]
Unscaled(c)   == [i \in 1..Len(c.vel) |-> c.vel[i] * c.ra]
NPart(c)      == Len(c.ids)
Hd(c)         == [count |-> NPart(c), total |-> c.total, mass |-> c.mass, width |-> c.box,
                  z |-> c.z, om |-> c.om, ol |-> c.ol, h100 |-> c.h100]

Absent == [there |-> FALSE]
Put(f, c, bx, bv, bi) ==
    /\ disk' = [disk EXCEPT ![f] = [there |-> TRUE, c |-> c, bx |-> bx, bv |-> bv, bi |-> bi,
                                    len |-> FileLen(NPart(c), bx, bv, bi), bad |-> FALSE]]
    /\ res' = Failure
Cut(f, k) == /\ disk[f].there /\ k <= disk[f].len
             /\ disk' = [disk EXCEPT ![f].len = k] /\ res' = Failure
(* a block marker that fits neither precision *)
Damage(f) == /\ disk[f].there
             /\ disk' = [disk EXCEPT ![f].bad = TRUE] /\ res' = Failure

HeaderThere(d)    == d.there /\ d.len >= HeaderEnd
ParticlesThere(d) == d.there /\ ~d.bad /\ d.len >= End(NPart(d.c), d.bx, d.bv, d.bi)

ReadHeader(f) == /\ UNCHANGED disk
                 /\ res' = IF HeaderThere(disk[f]) THEN [Failure EXCEPT !.ok = TRUE, !.hd = Hd(disk[f].c)] ELSE Failure
Particles(c) == [ok |-> TRUE, hd |-> Hd(c), xs |-> Wrapped(c), vs |-> Unscaled(c), ids |-> c.ids]
(* only the closing marker is missing: nothing of the particles is, so reading *)
(* may succeed or complain                                                     *)
OnlyMarkerLost(d) == ParticlesThere(d) /\ d.len < FileLen(NPart(d.c), d.bx, d.bv, d.bi)
Read(f) == /\ UNCHANGED disk
           /\ \/ ParticlesThere(disk[f]) /\ res' = Particles(disk[f].c)
              \/ (~ParticlesThere(disk[f]) \/ OnlyMarkerLost(disk[f])) /\ res' = Failure
----------------------------------------------------------------------------
(* bounded model: two files, a few particles on a 4-wide box *)
CONSTANT MaxN
Cats == UNION {{[ids |-> [i \in 1..n |-> i], pos |-> [i \in 1..(3*n) |-> ((i + k) % 6) - 1], vel |-> [i \in 1..(3*n) |-> i],
                 ra |-> 2, box |-> 4, total |-> n,
                 mass |-> 1, z |-> 0, om |-> 1, ol |-> 0, h100 |-> 1] :
                 k \in {0}} : n \in 0..MaxN}
Init == disk = [f \in Files |-> Absent] /\ res = Failure
Cuts(d) == LET n == FileLen(NPart(d.c), d.bx, d.bv, d.bi) IN {k \in {259, 260, n - 5, n - 4} : k <= d.len}
Next == \E f \in Files :
          \/ \E c \in Cats, bx \in {4, 8}, bv \in {4, 8}, bi \in {4, 8} : Put(f, c, bx, bv, bi)
          \/ disk[f].there /\ (\E k \in Cuts(disk[f]) : Cut(f, k))
          \/ Damage(f)
          \/ ReadHeader(f) \/ Read(f)
Spec == Init /\ [][Next]_vars

(* encoding does not matter; nothing partial is returned; all inside the box *)
InBox == \A f \in Files : (res.ok /\ res.xs # <<>>) =>
            \A i \in 1..Len(res.xs) : res.xs[i] >= 0 /\ res.xs[i] < 4
Whole == res.ok /\ res.ids # <<>> => Len(res.xs) = 3 * Len(res.ids) /\ Len(res.vs) = 3 * Len(res.ids)
EncodingFree == [][\A f, g \in Files :
    (ParticlesThere(disk[f]) /\ ParticlesThere(disk[g]) /\ disk[f].c = disk[g].c
        /\ Read(f) /\ res'.ok) => Read(g)]_vars
=============================================================================

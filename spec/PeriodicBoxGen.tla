-------------------------- MODULE PeriodicBoxGen --------------------------
(* Every displacement, wrap and range overlap within the bounds, as calls.    *)
EXTENDS PeriodicBox, Json, IOUtils, SequencesExt
Put(i, x, y, z) == [j \in Ax |-> IF j = i THEN x ELSE IF j = (i % 3) + 1 THEN y ELSE z]
Subs == {[e |-> "sub1", w |-> W, va |-> Put(i, a, 1, W - 1), vb |-> Put(i, b, W - 1, 0)] :
            W \in {2, 3, 4, 5}, i \in Ax, a \in -2..9, b \in -2..9}
SubsOK == {c \in Subs : \A i \in Ax : SubDomain(c.va[i] - c.vb[i], c.w)}
Mods == {c \in {[e |-> "mod1", w |-> W, va |-> Put(i, a, 0, -W)] : W \in {2, 3, 4, 5}, i \in Ax, a \in -5..9} :
            \A i \in Ax : WrapDomain(c.va[i], c.w)}
Meets == UNION {{[e |-> "meet", n |-> N, o1 |-> Put(i, a, 0, N - 1), w1 |-> Put(i, n1, N, 2), o2 |-> Put(i, b, 1 % N, 0), w2 |-> Put(i, n2, 1, 1)] :
            i \in Ax, a \in 0..N - 1, b \in 0..N - 1, n1 \in 1..N + 1, n2 \in 1..N + 1} : N \in {2, 3, 5}}
Grids == {[e |-> "grid", o |-> o, w |-> <<a, b, c>>] : o \in {<<0, 0, 0>>, <<2, -3, 7>>}, a \in 1..3, b \in 1..3, c \in 1..3}
Rels == {[e |-> "rel", n |-> N, sub |-> 4, u |-> 1, o |-> Put(i, o, 0, N - 1), c |-> Put(i, c, N - 1, 1), ps |-> FlattenSeq([k \in 1..2 * N |-> Put(i, (2 * k) - 1, 0, (4 * N) - 1)])] :
            N \in {2, 3, 5}, i \in Ax, o \in 0..4, c \in 0..4}
RelsOK == {r \in Rels : \A i \in Ax : r.o[i] < r.n /\ r.c[i] < r.n}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(SubsOK) \o SetToSeq(Mods) \o SetToSeq(Meets) \o SetToSeq(Grids) \o SetToSeq(RelsOK))
GInit == w = 1 /\ reg = <<>> /\ got = 0
GSpec == GInit /\ [][FALSE]_<<w, reg, got>>
=============================================================================

---------------------------- MODULE GridDerivGen ----------------------------
(* Every operator under every combination of order, operation, periodicity    *)
(* and filled axes, each preceded by another call with the same options.      *)
EXTENDS GridDeriv, Json, IOUtils, SequencesExt
Kinds == {<<"deriv", 1>>, <<"deriv", 2>>, <<"deriv", 3>>, <<"grad", 1>>, <<"div", 1>>, <<"curl", 1>>}
F4 == << << <<1, 4, 0, 0>>, <<-2, 0, 3, 1>>, <<3, 1, 1, 1>>, <<5, 0, 0, 0>> >>,
         << <<1, 0, 4, 0>>, <<2, 3, 0, 0>>, <<-1, 1, 2, 1>>, <<1, 0, 0, 2>> >>,
         << <<-1, 0, 0, 4>>, <<1, 2, 0, 2>>, <<2, 0, 3, 0>>, <<-3, 1, 0, 0>> >> >>
F2 == << << <<1, 2, 0, 0>>, <<-2, 0, 2, 1>>, <<3, 1, 1, 1>>, <<5, 0, 0, 0>> >>,
         << <<1, 0, 2, 0>>, <<2, 2, 0, 0>>, <<-1, 1, 2, 1>>, <<1, 0, 0, 2>> >>,
         << <<-1, 0, 0, 2>>, <<1, 2, 0, 2>>, <<2, 0, 1, 0>>, <<-3, 1, 0, 0>> >> >>
Call1(kd, o, w, n, r) == [e |-> "deriv", kind |-> kd[1], axis |-> kd[2], o |-> o, org |-> <<3, 0, 1>>, w |-> w, cells |-> n, u |-> "0.5",
                       c |-> <<2, 0, 1>>, f |-> IF kd[1] \in {"deriv", "grad"} THEN <<IF r = 2 THEN F2[1] ELSE F4[1]>> ELSE IF r = 2 THEN F2 ELSE F4,
                       pre |-> <<4, -1, 7>>]
Session(kd, op, r, per, fill) ==
    LET n == 7  w == [a \in 1..3 |-> IF a \in fill THEN n ELSE r + a]
        kd2 == CHOOSE q \in Kinds : q[1] = "curl"
    IN  << [e |-> "fresh"], [e |-> "opts", o |-> "a", periodic |-> per, op |-> op, order |-> r],
           Call1(kd, "a", w, n, r), Call1(kd2, "a", w, n, r), Call1(kd, "a", w, n, r), Call1(kd, "nil", <<5, 6, 5>>, n, 4) >>
All == {Session(kd, op, r, per, fill) : kd \in Kinds, op \in {"add", "sub", "none"}, r \in {2, 4}, per \in BOOLEAN,
                                         fill \in {{}, {1}, {2}, {3}, {1, 3}, {1, 2, 3}}}
ASSUME ndJsonSerialize(IOEnv.GEN, FlattenSeq(SetToSeq(All)))
GInit == opts = [o \in Names |-> DefaultOpt] /\ out = 0 /\ ghost = 0
GSpec == GInit /\ [][FALSE]_<<opts, out, ghost>>
=============================================================================

-------------------------- MODULE MonteCarloTrace --------------------------
(* Monte Carlo passes of the real code over sheet segments: every batch of samples the
   pass hands to the deposit is recorded, with a witness (cube, path, order of the
   corners, set of unit samples) that this specification checks. *)
EXTENDS BoxRules, FiniteSets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES boxes, l
vars == <<boxes, l>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
OK == E.outcome = "ok"
Perm == <<<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>>>
TBox == Is("newbox") /\ OK /\ BoxOK(E) /\ boxes' = (E.bid :> TLCEval(BoxOf(E))) @@ boxes
TVals == Is("vals") /\ OK /\ UNCHANGED boxes /\ ValsOK(boxes[E.bid], E)
Begin == Is("begin") /\ boxes' = <<>>

TPass == /\ Is("pass") /\ OK
  /\ LET b == boxes[E.bid]
         full == b.cells * b.sub
         g == E.segw + 1
         n == E.n
         w == E.segw \div E.skip
         vec == Vector(b.q)
         scale == E.skip * E.skip * E.skip
         Site(x, y, z) == 1 + x + g * y + g * g * z
         (* unwrapped position and velocity of a particle *)
         pos == TLCEval([p \in 1..(g*g*g) |-> [d \in Dims |-> E.O[d] + ((E.xs[3*p-3+d] - E.O[d]) % full)]])
         Vel(p, d) == E.vs[3*p-3+d]
         (* sites of the tetrahedron of path a at the cube with corner c, from anchor to opposite corner *)
         Step(c, a, k) == [d \in Dims |-> c[d] + (IF \E i \in 1..k : Perm[a][i] = d THEN E.skip ELSE 0)]
         Sites(c, a) == TLCEval([k \in 1..4 |-> LET s == Step(c, a, k - 1) IN Site(s[1], s[2], s[3])])
         (* weights in sixteenths of unit sample j of set u *)
         Bary(u, j) == <<E.ub[u][3*j-2], E.ub[u][3*j-1], E.ub[u][3*j], 16 - E.ub[u][3*j-2] - E.ub[u][3*j-1] - E.ub[u][3*j]>>
         cubes == {<<x * E.skip, y * E.skip, z * E.skip>> : x \in 0..(w-1), y \in 0..(w-1), z \in 0..(w-1)}
         Inside(p16) == \A d \in Dims : Rel(p16[d] \div (16 * b.sub), b.org[d], b.cells) < b.span[d]
         (* a witness names the corners in the order of the sample's weights *)
         Corner(q) == LET s == Sites(q.c, q.a) IN [k \in 1..4 |-> s[q.o[k]]]
         Right(call) ==
            /\ call.q.c \in cubes /\ call.q.a \in 1..6 /\ call.q.u \in 1..Len(E.ub)
            /\ Len(call.q.o) = 4 /\ {call.q.o[k] : k \in 1..4} = 1..4
            /\ Len(call.x) = 3 * n /\ (vec => Len(call.w) = 3 * n)
            /\ LET s == TLCEval(Corner(call.q)) IN
               \A j \in 1..n : LET be == Bary(call.q.u, j) IN \A d \in Dims :
                  /\ (call.x[3*j-3+d] - (be[1] * pos[s[1]][d] + be[2] * pos[s[2]][d] + be[3] * pos[s[3]][d] + be[4] * pos[s[4]][d])) % (16 * full) = 0
                  /\ vec => 16 * call.w[3*j-3+d] = be[1] * Vel(s[1], d) + be[2] * Vel(s[2], d) + be[3] * Vel(s[3], d) + be[4] * Vel(s[4], d)
            (* mass per sample: the tetrahedron's share of the segment's mass; velocities are not weighted *)
            /\ IF vec THEN call.p = 256 * E.ptv ELSE Abs(call.p * 6 * n - 256 * E.ptv * scale) <= 3 * n + scale
         seen == TLCEval({<<E.calls[i].q.c, E.calls[i].q.a>> : i \in 1..Len(E.calls)})
         MayTouch(c, a) == LET s == Sites(c, a) IN
            \/ \E k \in 1..4 : Inside([d \in Dims |-> 16 * pos[s[k]][d]])
            \/ \E u \in 1..Len(E.ub) : \E j \in 1..n : LET be == Bary(u, j) IN
                  Inside([d \in Dims |-> be[4] * pos[s[1]][d] + be[1] * pos[s[2]][d] + be[2] * pos[s[3]][d] + be[3] * pos[s[4]][d]])
         (* the samples of all calls in one row *)
         ncall == Len(E.calls)
         S(k) == E.calls[((k - 1) \div n) + 1]
         J(k) == ((k - 1) % n) + 1
         ix == TLCEval([k \in 1..(ncall * n) |->
                  Idx([b EXCEPT !.sub = 16 * b.sub], <<S(k).x[3*J(k)-2], S(k).x[3*J(k)-1], S(k).x[3*J(k)]>>)])
         W(k, c) == IF vec THEN E.ptv * S(k).w[3*J(k)-3+c] ELSE (4 * E.ptv * scale) \div (6 * n)
     IN /\ \A i \in 1..ncall : Right(E.calls[i])
        /\ Cardinality(seen) = ncall                             \* no tetrahedron twice
        /\ \A c \in cubes : \A a \in 1..6 : (<<c, a>> \notin seen) => ~MayTouch(c, a)
        /\ boxes' = (E.bid :> Deposited(b, ix, W)) @@ boxes
TraceInit == l = 1 /\ boxes = <<>>
TraceNext == Begin \/ TBox \/ TPass \/ TVals
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================

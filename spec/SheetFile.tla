----------------------------- MODULE SheetFile -----------------------------
(* C05.  Sheet files on disk: written in one go, possibly cut short by a      *)
(* crash, possibly foreign, re-encoded in the other byte order, removed or    *)
(* overwritten; read by three independent readers.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Files,      \* file names
          HB,         \* bytes before the first vector (flag, size, header)
          VB          \* bytes per vector

VARIABLES disk,       \* [Files -> what is on disk]
          res         \* outcome of the last operation

vars == <<disk, res>>

Absent == [there |-> FALSE, len |-> 0, foreign |-> FALSE, h |-> <<>>, xs |-> <<>>, vs |-> <<>>]
Failure == [ok |-> FALSE, val |-> <<>>]
Success(v) == [ok |-> TRUE, val |-> v]

(* the number of vectors of a content and the length of a complete file *)
NVec(xs)      == Len(xs)
FullLen(xs)   == HB + 2 * VB * NVec(xs)

Complete(h, xs, vs) ==
    [there |-> TRUE, len |-> FullLen(xs), foreign |-> FALSE, h |-> h, xs |-> xs, vs |-> vs]

Write(f, h, xs, vs) == disk' = [disk EXCEPT ![f] = Complete(h, xs, vs)]
                       /\ res' = Success(<<>>)
(* a crash during Write (or a later loss) leaves a prefix of k bytes *)
Cut(f, k)   == /\ disk[f].there /\ k <= disk[f].len
               /\ disk' = [disk EXCEPT ![f].len = k] /\ res' = Success(<<>>)
Foreign(f)  == /\ disk[f].there
               /\ disk' = [disk EXCEPT ![f].foreign = TRUE] /\ res' = Success(<<>>)
Reencode(f) == disk[f].there /\ UNCHANGED disk /\ res' = Success(<<>>)
Remove(f)   == disk' = [disk EXCEPT ![f] = Absent] /\ res' = Success(<<>>)

HeaderThere(d) == d.there /\ ~d.foreign /\ d.len >= HB
PosThere(d)    == HeaderThere(d) /\ d.len >= HB + VB * NVec(d.xs)
VelThere(d)    == HeaderThere(d) /\ d.len >= HB + 2 * VB * NVec(d.xs)

(* the reads: what the caller gets *)
HeaderRes(d)    == IF HeaderThere(d) THEN Success(d.h) ELSE Failure
PosRes(d, n)    == IF PosThere(d) /\ n = NVec(d.xs) THEN Success(d.xs) ELSE Failure
VelRes(d, n)    == IF VelThere(d) /\ n = NVec(d.xs) THEN Success(d.vs) ELSE Failure

ReadHeader(f) == UNCHANGED disk /\ res' = HeaderRes(disk[f])
ReadPos(f, n) == UNCHANGED disk /\ res' = PosRes(disk[f], n)
ReadVel(f, n) == UNCHANGED disk /\ res' = VelRes(disk[f], n)

----------------------------------------------------------------------------
(* bounded model *)
CONSTANTS Contents, MaxVec
Vecs == UNION {[1..n -> Contents] : n \in 0..MaxVec}
Init == disk = [f \in Files |-> Absent] /\ res = Failure
Next == \E f \in Files :
          \/ \E xs \in Vecs : \E vs \in [1..Len(xs) -> Contents] : \E h \in Contents : Write(f, <<h>>, xs, vs)
          \/ \E k \in 0..(HB + 2 * VB * MaxVec) : Cut(f, k)
          \/ Foreign(f) \/ Reencode(f) \/ Remove(f)
          \/ ReadHeader(f)
          \/ \E n \in 0..MaxVec : ReadPos(f, n) \/ ReadVel(f, n)
Spec == Init /\ [][Next]_vars

(* the property on the design *)
NeverInvent == [][\A f \in Files :
     /\ ReadHeader(f) /\ res'.ok => disk[f].there /\ res'.val = disk[f].h
     /\ \A n \in 0..MaxVec : (ReadPos(f, n) /\ res'.ok) => (Len(res'.val) = n /\ disk[f].len >= HB + VB * n)
     /\ \A n \in 0..MaxVec : (ReadVel(f, n) /\ res'.ok) => (Len(res'.val) = n /\ disk[f].len >= HB + 2 * VB * n)]_vars
Shape == \A f \in Files : disk[f].len <= FullLen(disk[f].xs)
           /\ (disk[f].there => Len(disk[f].xs) = Len(disk[f].vs))
=============================================================================

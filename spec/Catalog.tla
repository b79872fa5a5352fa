------------------------------ MODULE Catalog ------------------------------
(* A halo catalogue is a table; its binary form stores column after column.  *)
(* A full conversion stores every row, a top-n conversion the n rows which   *)
(* are largest in the key column, found through an index sort. Columns are   *)
(* then read by offset.                                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Rows, Cols, Values
VARIABLES table, file, n, got, want
vars == <<table, file, n, got, want>>
Key == Cols
NRows(t) == Len(t[1])
Init == /\ \E r \in 0..Rows : table \in [1..Cols -> [1..r -> Values]]
        /\ file = <<>> /\ n = -1 /\ got = <<>> /\ want = <<>>
Write(cols) == <<Len(cols[1])>> \o FlattenSeq(cols)
Convert == file = <<>> /\ n' = NRows(table) /\ file' = Write(table) /\ UNCHANGED <<table, got, want>>
Idx(t) == SortSeq([i \in 1..NRows(t) |-> i], LAMBDA i, j : t[Key][i] < t[Key][j])
Take(t, k) == LET m == IF k > NRows(t) THEN NRows(t) ELSE k idx == Idx(t)
                  last == SubSeq(idx, (NRows(t) - m) + 1, NRows(t))
              IN  [c \in 1..Cols |-> [i \in 1..m |-> t[c][last[i]]]]
TopN(k) == file = <<>> /\ n' = k /\ file' = Write(Take(table, k)) /\ UNCHANGED <<table, got, want>>
Column(c) == SubSeq(file, (2 + ((c - 1) * file[1])), 1 + (c * file[1]))
Read(cs) == /\ file # <<>> /\ got = <<>> /\ want' = cs
            /\ got' = [i \in 1..Len(cs) |-> Column(cs[i])] /\ UNCHANGED <<table, file, n>>
Next == Convert \/ (\E k \in 0..(Rows + 1) : TopN(k)) \/ \E cs \in [1..2 -> 1..Cols] : Read(cs)
Spec == Init /\ [][Next]_vars
Kept == file[1]
RowOf(cols, i) == [c \in DOMAIN cols |-> cols[c][i]]
(* what is read are rows of the table, each at most as often as it is there, the same rows in every column *)
Faithful == got # <<>> =>
   /\ \A i \in 1..Len(got) : Len(got[i]) = Kept
   /\ Kept = IF n < NRows(table) THEN n ELSE NRows(table)
   /\ LET src == [c \in 1..Len(want) |-> table[want[c]]]
          times(cols, r) == Cardinality({i \in 1..Len(cols[1]) : RowOf(cols, i) = r})
      IN  \A i \in 1..Kept : times(got, RowOf(got, i)) <= times(src, RowOf(got, i))
(* and a top-n conversion loses none larger than one it keeps *)
Largest == (got # <<>> /\ want[1] = Key) =>
   \A v \in Values : \A i \in 1..Kept : got[1][i] < v =>
        Cardinality({j \in 1..Kept : got[1][j] = v}) = Cardinality({j \in 1..NRows(table) : table[Key][j] = v})
=============================================================================

------------------------------ MODULE Convert ------------------------------
(* C01/C02, design of the conversion: the particles of a snapshot arrive file *)
(* by file in any order, pass through a fixed-size scatter buffer, land in    *)
(* the in-memory grid and are then written segment by segment.                *)
EXTENDS Lagrange, TLC
CONSTANTS N,          \* grid width
          C,          \* cells per side
          BufLen,     \* capacity of the scatter buffer
          NFiles
Ids == 1..(N * N * N)
Content(id) == 100 + id          \* what the snapshot says about particle id
None == 0

VARIABLES todo,   \* per file, the particles not yet read
          buf,    \* the scatter buffer, a sequence of <<id, value>>
          grid,   \* in-memory grid, by site + 1
          sheets, \* written segments
          phase
vars == <<todo, buf, grid, sheets, phase>>

Init == /\ \E f \in [Ids -> 1..NFiles] : todo = [k \in 1..NFiles |-> {id \in Ids : f[id] = k}]
        /\ buf = <<>> /\ grid = [s \in Ids |-> None] /\ sheets = <<>> /\ phase = "read"

Flushed(b, g) == [s \in Ids |-> IF \E i \in 1..Len(b) : b[i][1] = s
                                THEN b[CHOOSE i \in 1..Len(b) : b[i][1] = s][2] ELSE g[s]]
Current == CHOOSE k \in 1..NFiles : todo[k] # {} /\ \A j \in 1..(k-1) : todo[j] = {}
Append1 == /\ phase = "read" /\ \E k \in 1..NFiles : todo[k] # {}
           /\ \E id \in todo[Current] :
                LET b == Append(buf, <<id, Content(id)>>) IN
                /\ todo' = [todo EXCEPT ![Current] = @ \ {id}]
                /\ IF Len(b) = BufLen
                   THEN grid' = Flushed(b, grid) /\ buf' = <<>>
                   ELSE buf' = b /\ UNCHANGED grid
           /\ UNCHANGED <<sheets, phase>>
Finish == /\ phase = "read" /\ \A k \in 1..NFiles : todo[k] = {}
          /\ grid' = Flushed(buf, grid) /\ buf' = <<>> /\ phase' = "write"
          /\ UNCHANGED <<todo, sheets>>
WriteSegment == /\ phase = "write" /\ Len(sheets) < NSegs(C)
                /\ sheets' = Append(sheets, [p \in 0..(NGrid(N, C) - 1) |-> grid[SegSite(N, C, Len(sheets), p) + 1]])
                /\ UNCHANGED <<todo, buf, grid, phase>>
Next == Append1 \/ Finish \/ WriteSegment
Spec == Init /\ [][Next]_vars

NoOverflow == Len(buf) < BufLen
Conserved  == \A id \in Ids : \/ \E k \in 1..NFiles : id \in todo[k]
                              \/ \E i \in 1..Len(buf) : buf[i] = <<id, Content(id)>>
                              \/ grid[id] = Content(id)
NeverWrong == \A s \in Ids : grid[s] \in {None, Content(s)}
Scattered  == phase = "write" => \A s \in Ids : grid[s] = Content(s)
Sheets     == \A i \in 1..Len(sheets) : \A p \in DOMAIN sheets[i] : sheets[i][p] = Content(SegSite(N, C, i - 1, p) + 1)
Laws == \A n \in 1..6, c \in 1..6 : (n % c = 0) => Tiling(n, c) /\ FacesShared(n, c)
ASSUME Laws
=============================================================================

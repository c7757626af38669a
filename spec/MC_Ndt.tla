------------------------------- MODULE MC_Ndt -------------------------------
(* Lattice instance: coordinates are integers, a cell is 2 wide, poses are   *)
(* translations and quarter turns, the statistics of a cell are its points.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Lo, Hi, MaxScans
VARIABLES g, pts, cells, fresh, given
LSub(a, b) == a - b
LDiv(a, b) == a \div b
LFloor(a) == a
LLt(a, b) == a < b
LPlace(po, p) == LET q == CASE po.t = 0 -> p [] po.t = 1 -> [x |-> -p.y, y |-> p.x] IN [x |-> po.x + q.x, y |-> po.y + q.y]
LStats(ps) == ps
LScore(s, p) == Len(s)
LTotal(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
N == INSTANCE Ndt WITH Sub <- LSub, Div <- LDiv, Floor <- LFloor, Lt <- LLt, PlaceAt <- LPlace, Stats <- LStats, Score <- LScore, Total <- LTotal
Low == -3
Plane == [x : Lo..Hi, y : Lo..Hi]
Grids == {[cell |-> c, sx |-> sx, sy |-> sy, ox |-> ox, oy |-> oy] : c \in {1, 2}, sx \in {2, 3}, sy \in {1, 4}, ox \in {-1, 0}, oy \in {-2, 1}}
Scans == {<<>>, <<[x |-> 0, y |-> 0], [x |-> 1, y |-> 0]>>, <<[x |-> 2, y |-> -1]>>}
Init == /\ g \in Grids /\ pts = <<>> /\ cells = <<>> /\ fresh = FALSE /\ given = <<>>
Add == \E x \in -1..2, y \in {0, 1}, t \in 0..1, s \in Scans :
         LET po == [x |-> x, y |-> y, t |-> t] IN
         /\ Len(given) < MaxScans
         /\ N!AddScan(po, s) /\ given' = Append(given, <<po, s>>)
Next == Add \/ (~fresh /\ N!Compute /\ UNCHANGED given)
Inside(p) == g.ox <= p.x /\ p.x <= g.ox + g.sx /\ g.oy <= p.y /\ p.y <= g.oy + g.sy
Given == {<<i, j>> : i \in 1..MaxScans, j \in 1..2} \cap {<<i, j>> \in (1..Len(given)) \X (1..2) : j <= Len(given[i][2])}
At(ij) == LPlace(given[ij[1]][1], given[ij[1]][2][ij[2]])
(* every point of the requested extent has a cell; far away has none *)
ExtentCovered == \A p \in Plane : Inside(p) => N!CellOf(p) # N!None
OutsideEmpty == \A p \in Plane : p.x < g.ox \/ p.y < g.oy \/ p.x > g.ox + g.sx + g.cell \/ p.y > g.oy + g.sy + g.cell => N!CellOf(p) = N!None
(* points share a cell iff they are in the same square *)
Squares == \A p, q \in Plane : N!CellOf(p) # N!None /\ N!CellOf(q) # N!None =>
  (N!CellOf(p) = N!CellOf(q) <=> \E i, j \in 0..(Hi - Lo) : \A r \in {p, q} :
     g.ox + i * g.cell <= r.x /\ r.x < g.ox + (i + 1) * g.cell /\ g.oy + j * g.cell <= r.y /\ r.y < g.oy + (j + 1) * g.cell)
(* each point counts exactly once, where it is *)
Conserved == fresh =>
  /\ \A p \in Plane : N!Likelihood(p) = IF N!CellOf(p) = N!None THEN 0 ELSE Cardinality({ij \in Given : N!CellOf(At(ij)) = N!CellOf(p)})
  /\ LTotal([i \in 1..Cardinality(DOMAIN cells) |-> Len(cells[SetToSeq(DOMAIN cells)[i]])]) = Cardinality({ij \in Given : N!CellOf(At(ij)) # N!None})
GridOnly == given = <<>> => ExtentCovered /\ OutsideEmpty /\ Squares
=============================================================================

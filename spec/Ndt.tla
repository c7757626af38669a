-------------------------------- MODULE Ndt ---------------------------------
(* The NDT grid: a rectangle of square cells, each holding the points of the *)
(* added scans that fall into it.  A point of the plane belongs to at most   *)
(* one cell.  Arithmetic is a parameter, as in Cell.                         *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Sub(_, _), Div(_, _), Floor(_), Lt(_, _),
          PlaceAt(_, _),    \* a point seen from a pose, in the outer frame
          Stats(_),         \* what a cell keeps of its points when computed
          Score(_, _),      \* of a point under the statistics of a cell
          Total(_)          \* sum of a sequence of scores
None == <<>>
VARIABLES g,        \* the grid: [cell, sx, sy, ox, oy] (sizes in meters)
          pts,      \* all points inside the grid, in the order added
          cells,    \* computed cells: cell index -> statistics
          fresh
gvars == <<g, pts, cells, fresh>>
NX == Floor(Div(g.sx, g.cell)) + 1
NY == Floor(Div(g.sy, g.cell)) + 1
(* the cell of a point: <<cx, cy>> or None *)
CellOf(p) ==
  IF Lt(p.x, g.ox) \/ Lt(p.y, g.oy) THEN None
  ELSE LET cx == Floor(Div(Sub(p.x, g.ox), g.cell))
           cy == Floor(Div(Sub(p.y, g.oy), g.cell))
       IN IF cx < NX /\ cy < NY THEN <<cx, cy>> ELSE None
Create(grid) == g' = grid /\ pts' = <<>> /\ cells' = <<>> /\ fresh' = FALSE
AddScan(pose, ps) ==
  /\ pts' = pts \o SelectSeq([i \in 1..Len(ps) |-> PlaceAt(pose, ps[i])], LAMBDA p : CellOf(p) # None)
  /\ fresh' = FALSE
  /\ UNCHANGED <<g, cells>>
PointsIn(c) == SelectSeq(pts, LAMBDA p : CellOf(p) = c)
Compute ==
  /\ cells' = [c \in {CellOf(pts[i]) : i \in 1..Len(pts)} |-> Stats(PointsIn(c))]
  /\ fresh' = TRUE
  /\ UNCHANGED <<g, pts>>
Likelihood(p) == LET c == CellOf(p) IN IF c \in DOMAIN cells THEN Score(cells[c], p) ELSE Total(<<>>)
LikelihoodOf(ps) == Total([i \in 1..Len(ps) |-> Likelihood(ps[i])])
LikelihoodScan(pose, ps) == LikelihoodOf([i \in 1..Len(ps) |-> PlaceAt(pose, ps[i])])
=============================================================================

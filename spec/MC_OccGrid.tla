----------------------------- MODULE MC_OccGrid -----------------------------
(* The closed form of a ray has the properties one wants of it, and is the  *)
(* line that Bresenham's algorithm steps along.                             *)
EXTENDS OccGrid, TLC
CONSTANTS R, Small
VARIABLES e, rays
Line == \E x, y \in (-R)..R : e = <<x, y>> /\ rays = <<>>
(* a few rays in a small grid *)
Cell == {<<x, y>> : x, y \in 0..Small}
Few == e = <<0, 0>> /\ rays \in UNION {[1..n -> Cell \X Cell] : n \in 0..2}
Init == Line \/ Few
Next == UNCHANGED <<e, rays>>
O == <<0, 0>>
RECURSIVE Step(_, _, _, _, _, _, _)
Step(x, y, err, dx, dy, ex, ey) ==
  IF x = ex /\ y = ey THEN <<<<x, y>>>>
  ELSE LET e2 == 2 * err
           gx == e2 >= -dy
           gy == e2 <= dx
       IN <<<<x, y>>>> \o Step(IF gx THEN x + SignTo(0, ex) ELSE x, IF gy THEN y + SignTo(0, ey) ELSE y,
                              err + (IF gx THEN -dy ELSE 0) + (IF gy THEN dx ELSE 0), dx, dy, ex, ey)
Cs == RayCells(O, e)
Ends == Cs[1] = O /\ Cs[Len(Cs)] = e
Connected == \A i \in 1..(Len(Cs) - 1) : Span(Cs[i], Cs[i + 1]) = 1
NoRepeat == Cardinality({Cs[i] : i \in 1..Len(Cs)}) = Len(Cs)
(* never more than half a cell off the straight line *)
Straight == \A i \in 1..Len(Cs) : 2 * AbsI((Cs[i][1] * e[2]) - (Cs[i][2] * e[1])) <= Span(O, e)
Bresenham == Cs = Step(0, 0, AbsI(e[1]) - AbsI(e[2]), AbsI(e[1]), AbsI(e[2]), e[1], e[2])
Bounded == \A i \in 1..Len(Cs) : \A k \in 1..2 : Cs[i][k] * SignTo(0, e[k]) \in 0..AbsI(e[k])
(* classification *)
Half(h, t) == 2 * h > t
Val(c) == Value(HitsOf(rays, c), EmptyOf(rays, c), Half)
OnRay(c) == \E j \in 1..Len(rays) : \E i \in 1..Len(RayCells(rays[j][1], rays[j][2])) : RayCells(rays[j][1], rays[j][2])[i] = c
Classified == \A c \in Cell : /\ (Val(c) = -1) <=> ~OnRay(c)
                              /\ Len(rays) = 1 => (Val(c) = 100) <=> (c = rays[1][2])
(* the order of the rays does not matter, and no ray leaves the box of its ends *)
Order == Len(rays) = 2 => \A c \in Cell : Val(c) = Value(HitsOf(<<rays[2], rays[1]>>, c), EmptyOf(<<rays[2], rays[1]>>, c), Half)
Inside == \A j \in 1..Len(rays) : \A i \in 1..Len(RayCells(rays[j][1], rays[j][2])) : RayCells(rays[j][1], rays[j][2])[i] \in Cell
=============================================================================

-------------------------------- MODULE Cell --------------------------------
(* One NDT cell.  Abstractly it is the sequence of points added; the        *)
(* statistics it reports are those of the batch of these points.            *)
(* Arithmetic is a parameter (exact rationals for model checking, doubles   *)
(* for recorded executions).  Points are [x, y].                            *)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Div(_, _), Nat2(_), Le(_, _), Sqrt(_)
Sum(s, F(_)) == FoldLeft(LAMBDA acc, p : Add(acc, F(p)), Nat2(0), s)
Sq(a) == Mul(a, a)
BatchMean(ps) == LET n == Nat2(Len(ps)) IN [x |-> Div(Sum(ps, LAMBDA p : p.x), n), y |-> Div(Sum(ps, LAMBDA p : p.y), n)]
BatchCov(ps) ==
  LET m == BatchMean(ps)
      d == Nat2(Len(ps) - 1)
  IN [xx |-> Div(Sum(ps, LAMBDA p : Sq(Sub(p.x, m.x))), d),
      xy |-> Div(Sum(ps, LAMBDA p : Mul(Sub(p.x, m.x), Sub(p.y, m.y))), d),
      yy |-> Div(Sum(ps, LAMBDA p : Sq(Sub(p.y, m.y))), d)]
Det(c) == Sub(Mul(c.xx, c.yy), Sq(c.xy))
(* the larger eigenvalue *)
Large(c) == Div(Add(Add(c.xx, c.yy), Sqrt(Add(Sq(Sub(c.xx, c.yy)), Mul(Nat2(4), Sq(c.xy))))), Nat2(2))
(* inverse with the determinant limited to a thousandth of the squared larger spread *)
Limited(c) == LET lim == Div(Sq(Large(c)), Nat2(1000)) IN IF Le(lim, Det(c)) THEN Det(c) ELSE lim
Information(c) == LET d == Limited(c) IN [xx |-> Div(c.yy, d), xy |-> Div(Sub(Nat2(0), c.xy), d), yy |-> Div(c.xx, d)]
(* squared Mahalanobis distance of p *)
Maha(m, i, p) == LET dx == Sub(p.x, m.x)  dy == Sub(p.y, m.y)
                 IN Add(Add(Mul(i.xx, Sq(dx)), Mul(Nat2(2), Mul(i.xy, Mul(dx, dy)))), Mul(i.yy, Sq(dy)))
-----------------------------------------------------------------------------
VARIABLES pts,      \* the points added
          fresh     \* statistics are those of pts
CInit == pts = <<>> /\ fresh = FALSE
AddPoint(p) == pts' = Append(pts, p) /\ fresh' = FALSE
Compute == fresh' = (Len(pts) >= 3) /\ UNCHANGED pts
=============================================================================

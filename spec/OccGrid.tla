------------------------------- MODULE OccGrid ------------------------------
(* Rendering of rays into a grid.  Cells are <<column, row>>.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
AbsI(a) == IF a < 0 THEN -a ELSE a
Big(a, b) == IF a < b THEN b ELSE a
Span(s, e) == Big(AbsI(e[1] - s[1]), AbsI(e[2] - s[2]))
SignTo(a, b) == IF a < b THEN 1 ELSE -1
(* cell number i of the straight ray from cell s to cell e *)
RayCell(s, e, i) ==
  LET n == Span(s, e)
      way(k) == ((2 * i * AbsI(e[k] - s[k])) + n) \div (2 * n)
  IN IF n = 0 THEN s ELSE <<s[1] + (SignTo(s[1], e[1]) * way(1)), s[2] + (SignTo(s[2], e[2]) * way(2))>>
RayCells(s, e) == [i \in 1..(Span(s, e) + 1) |-> RayCell(s, e, i - 1)]
(* free, occupied or unknown; the share of hits decides *)
Value(hit, empty, Occupied(_, _)) == IF hit + empty = 0 THEN -1 ELSE IF Occupied(hit, hit + empty) THEN 100 ELSE 0
(* observations of a list of rays <<start, end>> of one cell *)
HitsOf(rays, c) == Cardinality({j \in 1..Len(rays) : rays[j][2] = c})
EmptyOf(rays, c) == Cardinality({j \in 1..Len(rays) : \E i \in 1..Span(rays[j][1], rays[j][2]) : RayCell(rays[j][1], rays[j][2], i - 1) = c})
=============================================================================

------------------------------- MODULE Tr_Ndt -------------------------------
(* N02: executions of the real NDT grid against the specification.          *)
EXTENDS TraceBase, NdtReal
VARIABLES g, pts, cells, fresh
N == INSTANCE Ndt WITH Sub <- RSub, Div <- RDiv, Floor <- RFloor, Lt <- RLt, PlaceAt <- Place, Stats <- CellStats, Score <- CellScore, Total <- RSum
NoGrid == [cell |-> "1", sx |-> "1", sy |-> "1", ox |-> "0", oy |-> "0"]
TInit == g = NoGrid /\ pts = <<>> /\ cells = <<>> /\ fresh = FALSE /\ l = 1
TNew == IsEvent("new") /\ N!Create([cell |-> Ev.cell, sx |-> Ev.sx, sy |-> Ev.sy, ox |-> Ev.ox, oy |-> Ev.oy])
TScan == IsEvent("scan") /\ N!AddScan(Ev.pose, Ev.pts)
TCompute == IsEvent("compute") /\ N!Compute
ShapedAt(p) == LET c == N!CellOf(p) IN c \in DOMAIN cells => Shaped(cells[c])
Same(v, w, n) == RNear(v, w, RMul("1e-6", RInt(n + 1)))
TPoint == /\ IsEvent("q") /\ UNCHANGED <<g, pts, cells, fresh>>
          /\ Must("likelihood in [0, 1]", RLe("0", Ev.v) /\ RLe(Ev.v, "1"))
          /\ Must("overloads agree", REq(Ev.v, Ev.v3))
          /\ fresh => Must("likelihood of a point", ShapedAt(Ev.p) => Same(Ev.v, N!Likelihood(Ev.p), 1))
          /\ fresh => Must("nothing outside", N!CellOf(Ev.p) = N!None => REq(Ev.v, "0"))
TList == /\ IsEvent("qlist") /\ UNCHANGED <<g, pts, cells, fresh>>
         /\ fresh => Must("likelihood of a list", (\A i \in 1..Len(Ev.pts) : ShapedAt(Ev.pts[i])) => Same(Ev.v, N!LikelihoodOf(Ev.pts), Len(Ev.pts)))
TQScan == /\ IsEvent("qscan") /\ UNCHANGED <<g, pts, cells, fresh>>
          /\ Must("scan unchanged", Ev.same)
          /\ fresh => Must("likelihood of a scan", (\A i \in 1..Len(Ev.pts) : ShapedAt(Place(Ev.pose, Ev.pts[i])))
                             => Same(Ev.v, N!LikelihoodScan(Ev.pose, Ev.pts), Len(Ev.pts)))
TNext == TNew \/ TScan \/ TCompute \/ TPoint \/ TList \/ TQScan
=============================================================================

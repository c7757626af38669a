------------------------------ MODULE Tr_Scan ------------------------------
(* K01: executions of the real Scan against the specification.              *)
EXTENDS TraceBase
VARIABLES pose, pts, dirty, cache, answer
RealPose0 == [x |-> "0", y |-> "0", t |-> "0"]
RealRef(po, ps) ==
  IF ps = <<>> THEN po ELSE
  LET n == RInt(Len(ps))
      m == [x |-> RDiv(RSumF(ps, LAMBDA p : p.x), n), y |-> RDiv(RSumF(ps, LAMBDA p : p.y), n)]
      c == Place(po, m)
  IN [x |-> c.x, y |-> c.y, t |-> po.t]
S == INSTANCE Scan WITH Ref <- RealRef, Pose0 <- RealPose0
XY(p) == [x |-> p.x, y |-> p.y]
XYT(p) == [x |-> p.x, y |-> p.y, t |-> p.t]
TInit == S!Init /\ l = 1
TNew == IsEvent("new") /\ pose' = RealPose0 /\ pts' = <<>> /\ dirty' = TRUE /\ cache' = RealPose0 /\ answer' = S!None
TPose == IsEvent("pose") /\ S!SetPose(XYT(Ev.v))
TPts == IsEvent("pts") /\ S!SetPoints(Ev.v)
TQuery == /\ IsEvent("query")
          /\ S!Query
          /\ Must("reference point", PoseClose(answer'[1], Ev.v, "1e-9") /\ RBits(pose.t, Ev.v.t))
          /\ Must("pose untouched", PoseBits(pose, Ev.pose))
          /\ Must("points untouched", Len(pts) = Len(Ev.pts) /\ \A i \in 1..Len(pts) : RBits(pts[i].x, Ev.pts[i].x) /\ RBits(pts[i].y, Ev.pts[i].y))
          /\ Must("id untouched", Ev.id = Ev.id0)
TNext == TNew \/ TPose \/ TPts \/ TQuery
CacheCoherent == S!CacheCoherent
=============================================================================

-------------------------------- MODULE Tr_Occ ------------------------------
(* O01, O02: grids rendered by the real code.                               *)
EXTENDS TraceBase, OccGrid
CONSTANT Prop
VARIABLES res, thr
TInit == l = 1 /\ res = "1" /\ thr = "0"
G == Ev.g
Mult(x) == RNear(RDiv(x, res), RInt(RFloor(RAdd(RDiv(x, res), "0.5"))), "1e-6")
Ends(s) == [i \in 1..Len(s.pts) |-> Place(s.p, s.pts[i])]
Slack == RMul("1e-9", res)
Within(p) == /\ RLe(RAdd(G.ox, res), RAdd(p.x, Slack)) /\ RLe(p.x, RAdd(Slack, RAdd(G.ox, RMul(RInt(G.w - 1), res))))
             /\ RLe(RAdd(G.oy, res), RAdd(p.y, Slack)) /\ RLe(p.y, RAdd(Slack, RAdd(G.oy, RMul(RInt(G.h - 1), res))))
Covers ==
  /\ Must("resolution", RClose(G.res, res, "1e-6"))
  /\ Must("size of the data", G.n = G.w * G.h)
  /\ Must("upright", RBits(G.qw, "1") /\ RBits(G.qx, "0") /\ RBits(G.qy, "0") /\ RBits(G.qz, "0") /\ RBits(G.oz, "0"))
  /\ Must("aligned to the resolution", Mult(G.ox) /\ Mult(G.oy))
  /\ Must("covers the origin", Within([x |-> "0", y |-> "0"]))
  /\ Must("covers poses and points", \A i \in 1..Len(Ev.scans) : /\ Within(Ev.scans[i].p)
                                                                 /\ LET es == TLCEval(Ends(Ev.scans[i])) IN \A j \in 1..Len(es) : Within(es[j]))
  /\ Must("depends on the scans only", Ev.same)
(* O02 *)
CellAt(p) == <<RTrunc(RDiv(RSub(p.x, G.ox), res)), RTrunc(RDiv(RSub(p.y, G.oy), res))>>
Rays == FoldLeft(LAMBDA a, s : a \o [i \in 1..Len(s.pts) |-> <<CellAt(s.p), CellAt(Place(s.p, s.pts[i])), s.k>>], <<>>, Ev.scans)
Index(c) == c[1] + (c[2] * G.w)
(* every ray in turn: counts by cell *)
Count(rays) ==
  LET idx == TLCEval([j \in 1..Len(rays) |-> [i \in 1..Span(rays[j][1], rays[j][2]) |-> Index(RayCell(rays[j][1], rays[j][2], i - 1))]])
      ends == TLCEval([j \in 1..Len(rays) |-> Index(rays[j][2])])
      dom == TLCEval(UNION {{ends[j]} \cup {idx[j][i] : i \in 1..Len(idx[j])} : j \in 1..Len(rays)})
      per == TLCEval([j \in 1..Len(rays) |-> {idx[j][i] : i \in 1..Len(idx[j])}])
      times(S) == FoldSet(LAMBDA j, a : a + rays[j][3], 0, S)
  IN [c \in dom |-> [hit |-> times({j \in 1..Len(rays) : ends[j] = c}),
                     empty |-> times({j \in 1..Len(rays) : c \in per[j]})]]
Occupied(h, t) == RLt(thr, RDiv(RInt(h), RInt(t)))
Open(h, t) == RNear(thr, RDiv(RInt(h), RInt(t)), "1e-12") /\ thr \notin {"0", "0.25", "0.5", "0.75"}
Cells ==
  LET cs == TLCEval(Count(TLCEval(Rays)))
      known == TLCEval([i \in {G.known[j][1] : j \in 1..Len(G.known)} |-> 0])
  IN /\ Must("cells no ray touched are unknown", \A i \in DOMAIN known : i \in DOMAIN cs)
     /\ Must("cells a ray touched are known", \A c \in DOMAIN cs : c \in DOMAIN known)
     /\ Must("free or occupied", \A j \in 1..Len(G.known) :
           LET c == cs[G.known[j][1]] IN
           Open(c.hit, c.hit + c.empty) \/ G.known[j][2] = Value(c.hit, c.empty, Occupied))
TNew == IsEvent("new") /\ res' = Ev.res /\ thr' = Ev.thr
TRender == IsEvent("render") /\ UNCHANGED <<res, thr>> /\ IF Prop = "O01" THEN Covers ELSE Cells
TNext == TNew \/ TRender
=============================================================================

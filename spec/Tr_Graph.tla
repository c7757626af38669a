------------------------------ MODULE Tr_Graph ------------------------------
(* G01, G02, G03: executions of the real Graph against the specification.   *)
EXTENDS TraceBase, FiniteSets
CONSTANT Prop
VARIABLES bary, scans, cons, disk
XYT(p) == [x |-> p.x, y |-> p.y, t |-> p.t]
RealRef(s, m) ==
  IF ~m \/ s.pts = <<>> THEN [x |-> s.pose.x, y |-> s.pose.y]
  ELSE LET n == RInt(Len(s.pts))
           c == [x |-> RDiv(RSumF(s.pts, LAMBDA p : p.x), n), y |-> RDiv(RSumF(s.pts, LAMBDA p : p.y), n)]
       IN Place(s.pose, c)
RDist2(a, b) == RAdd(RMul(RSub(a.x, b.x), RSub(a.x, b.x)), RMul(RSub(a.y, b.y), RSub(a.y, b.y)))
RSq(a) == RMul(a, a)
G == INSTANCE Graph WITH Ref <- RealRef, Dist2 <- RDist2, Lt <- RLt, Sq <- RSq
TInit == bary = FALSE /\ scans = <<>> /\ cons = <<>> /\ disk = <<>> /\ l = 1
TNew == IsEvent("new") /\ bary' = Ev.bary /\ scans' = <<>> /\ cons' = <<>> /\ disk' = <<>>
S(e) == [id |-> e.id, pose |-> XYT(e.pose), pts |-> e.pts]
C(e) == [b |-> e.b, e |-> e.to, tr |-> XYT(e.tr), info |-> e.info, sw |-> e.sw]
TScan == IsEvent("scan") /\ G!AddScan(S(Ev))
TCon == IsEvent("con") /\ G!AddCon(C(Ev))
TMove == IsEvent("move") /\ G!MoveScan(Ev.i + 1, XYT(Ev.p))
TPts == IsEvent("pts") /\ scans' = [scans EXCEPT ![Ev.i + 1].pts = Ev.v] /\ UNCHANGED <<bary, cons, disk>>

(* bit for bit *)
SameS(a, b) == /\ a.id = b.id /\ PoseBits(a.pose, b.pose)
               /\ Len(a.pts) = Len(b.pts) /\ \A i \in 1..Len(a.pts) : RBits(a.pts[i].x, b.pts[i].x) /\ RBits(a.pts[i].y, b.pts[i].y)
SameC(a, b) == a.b = b.b /\ a.e = b.e /\ PoseBits(a.tr, b.tr) /\ a.sw = b.sw /\ \A i \in 1..9 : RBits(a.info[i], b.info[i])
SameScans(lg, ss) == Len(lg) = Len(ss) /\ \A i \in 1..Len(ss) : SameS(S(lg[i]), ss[i])
SameCons(lg, cs) == Len(lg) = Len(cs) /\ \A i \in 1..Len(cs) : SameC(C(lg[i]), cs[i])
TSave == /\ IsEvent("save") /\ G!Save(Ev.f)
         /\ Prop = "G01" => /\ Must("saved", Ev.ret)
                            /\ Must("saving changes nothing", SameScans(Ev.scans, scans) /\ SameCons(Ev.cons, cons))
TLoad == /\ IsEvent("load") /\ G!Load(Ev.f)
         /\ Prop = "G01" => /\ Must("loaded scans", SameScans(Ev.scans, scans'))
                            /\ Must("loaded constraints", SameCons(Ev.cons, cons'))
                            /\ Must("second save gives the same file", Ev.resave)

(* closer or farther than that does not count as a difference *)
Eps == "1e-9"
TNear ==
  /\ IsEvent("near") /\ UNCHANGED <<bary, scans, cons, disk>>
  /\ Prop = "G02" =>
     LET q == S(Ev.q)
         n == G!Allowed(Ev.limit)
         dist == TLCEval([i \in 1..n |-> RSqrt(G!D2(q, i - 1))])
         a == Ev.res
     IN /\ Must("positions of allowed scans, once each", \A i \in 1..Len(a) : a[i] \in 0..(n - 1) /\ \A j \in 1..(i - 1) : a[j] # a[i])
        /\ Must("nothing out of range", \A i \in 1..Len(a) : RLt(dist[a[i] + 1], RAdd(Ev.d, Eps)))
        /\ Must("nothing in range missed", \A i \in 1..n : RLt(dist[i], RSub(Ev.d, Eps)) => \E j \in 1..Len(a) : a[j] = i - 1)
        /\ Must("nearest first", \A i \in 1..(Len(a) - 1) : RLe(dist[a[i] + 1], RAdd(dist[a[i + 1] + 1], Eps)))
        /\ Must("nothing changed", Ev.same)

Nodes == SelectSeq(Ev.m, LAMBDA m : m.ns = Ev.nodens)
Edges == SelectSeq(Ev.m, LAMBDA m : m.ns # Ev.nodens)
At(p, pose) == RClose(p.x, pose.x, "1e-12") /\ RClose(p.y, pose.y, "1e-12")
Color(m) == <<m.r, m.g, m.b>>
TMsg ==
  /\ IsEvent("msg") /\ UNCHANGED <<bary, scans, cons, disk>>
  /\ Prop = "G03" =>
     LET nodes == TLCEval(Nodes)
         edges == TLCEval(Edges)
         lines == TLCEval(G!EdgeMarkers)
         colors(sw) == {Color(edges[i]) : i \in {j \in 1..Len(cons) : cons[j].sw = sw}}
     IN
     /\ Must("one marker per scan and constraint", Len(nodes) = Len(scans) /\ Len(edges) = Len(cons))
     /\ Must("nodes where they are", \A i \in 1..Len(scans) : nodes[i].id = scans[i].id /\ At(nodes[i].pos, scans[i].pose) /\ nodes[i].shape = "point")
     /\ Must("lines between the ends", \A i \in 1..Len(cons) :
          LET e == lines[i]
              m == edges[i]
          IN m.shape = "line" /\ Len(m.pts) = 2 /\ At(m.pos, [x |-> "0", y |-> "0"]) /\
             ((At(m.pts[1], e.from) /\ At(m.pts[2], e.to)) \/ (At(m.pts[1], e.to) /\ At(m.pts[2], e.from))))
     /\ Must("unique ids", Cardinality({<<edges[i].ns, edges[i].id>> : i \in 1..Len(edges)}) = Len(edges))
     /\ Must("closures tell apart by colour", Cardinality(colors(TRUE)) <= 1 /\ Cardinality(colors(FALSE)) <= 1 /\ colors(TRUE) \cap colors(FALSE) = {})
     /\ Must("visible, added, in the map frame, now", \A i \in 1..Len(Ev.m) : LET m == Ev.m[i] IN
          m.frame = "map" /\ m.now /\ m.add /\ RLt("0", m.a) /\ RLt("0", m.scale) /\ REq(m.pos.z, "0"))
     /\ Must("nothing changed", Ev.same)
TNext == TNew \/ TScan \/ TCon \/ TMove \/ TPts \/ TSave \/ TLoad \/ TNear \/ TMsg
=============================================================================

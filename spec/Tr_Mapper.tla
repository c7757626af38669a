----------------------------- MODULE Tr_Mapper ------------------------------
(* M01..M13: executions of the whole node against the specification.  The   *)
(* specification follows what is observed, so that each property is judged  *)
(* on its own; Prop says which one.  An execution that crashes, deadlocks   *)
(* or hangs is accepted by none.                                            *)
EXTENDS TraceBase, FiniteSets
CONSTANT Prop
VARIABLES
  cf,     \* parameters of the node
  files,  \* maps on disk
  gr,     \* every graph the node ever had: [scans, cons, grid, fresh]; a scan [id, pose, pts, how]
  nd,     \* the node
  inp,    \* the input that is being handled
  pb,     \* the publisher's round
  lc      \* the loop closure's progress
vars == <<cf, files, gr, nd, inp, pb, lc>>
M == INSTANCE Mapping
P(S) == Prop \in S
XYT(p) == [x |-> R(p.x), y |-> R(p.y), t |-> R(p.t)]
Id == XYT([x |-> "0", y |-> "0", t |-> "0"])
Tol == "1e-7"
Same(a, b) == PoseClose(a, b, Tol)
Idx(n) == [i \in 1..n |-> i]
-----------------------------------------------------------------------------
(* ---- looking for scans close to one (see Graph) ---- *)
RefOf(s) == IF ~cf.bary \/ s.pts = <<>> THEN [x |-> s.pose.x, y |-> s.pose.y]
            ELSE LET n == RInt(Len(s.pts))
                 IN Place(s.pose, [x |-> RDiv(RSumF(s.pts, LAMBDA p : p.x), n), y |-> RDiv(RSumF(s.pts, LAMBDA p : p.y), n)])
Dist(a, b) == RHypot(RSub(a.x, b.x), RSub(a.y, b.y))
Eps == "1e-9"
(* positions of scans before `limit` closer than d to s, nearest first; open: rounding may change the answer *)
NearTo(scans, s, limit, d) ==
  LET me == TLCEval(RefOf(s))
      dist == TLCEval([i \in 1..limit |-> Dist(me, RefOf(scans[i]))])
      in == {i \in 1..limit : RLt(dist[i], d)}
      list == TLCEval(SetToSortSeq(in, LAMBDA i, j : RLt(dist[i], dist[j])))
      doubt == (\E i \in 1..limit : RNear(dist[i], d, Eps)) \/ (\E k \in 1..(Len(list) - 1) : RNear(dist[list[k]], dist[list[k + 1]], Eps))
  IN [list |-> [k \in 1..Len(list) |-> list[k] - 1], open |-> doubt]
(* scans that q may close a loop with *)
Cand(scans, q) ==
  IF M!Before(q, cf.depth) <= 0 THEN [list |-> <<>>, open |-> FALSE]
  ELSE LET r == NearTo(scans, scans[q + 1], M!Before(q, cf.depth), cf.gsize)
       IN [list |-> SelectSeq(r.list, LAMBDA i : scans[i + 1].pts # <<>>), open |-> r.open]
(* is an initial pose near some scan? *)
NearEnough == "10"
NearPose(scans, e) == LET r == NearTo(scans, [pose |-> e.p, pts |-> <<>>], Len(scans), NearEnough)
                      IN IF r.open THEN BOOLEAN ELSE {r.list # <<>>}
Shut(scans, q) == LET c == Cand(scans, q) IN c.list = <<>> \/ c.open \/ cf.glimit = 0
Least(a, b) == IF a < b THEN a ELSE b

(* ---- comparing constraints ---- *)
Ident(i, j) == IF i = j THEN "1" ELSE "0"
Prod(A, B, i, j) == RAdd(RAdd(RMul(A[(i-1)*3+1], B[j]), RMul(A[(i-1)*3+2], B[3+j])), RMul(A[(i-1)*3+3], B[6+j]))
InverseOf(A, B) == \A i, j \in 1..3 : RNear(Prod(A, B, i, j), Ident(i, j), "1e-5")
Diag(d) == <<d[1], "0", "0", "0", d[2], "0", "0", "0", d[3]>>
SameCon(a, b) == a.b = b.b /\ a.to = b.to /\ PoseBits(a.tr, b.tr) /\ a.sw = b.sw /\ \A i \in 1..9 : RBits(a.info[i], b.info[i])
SameScan(a, b) == a.id = b.id /\ PoseBits(a.pose, b.pose) /\ Len(a.pts) = Len(b.pts)
                  /\ \A i \in 1..Len(a.pts) : RBits(a.pts[i].x, b.pts[i].x) /\ RBits(a.pts[i].y, b.pts[i].y)
SameMap(s1, c1, s2, c2) == /\ Len(s1) = Len(s2) /\ \A i \in 1..Len(s1) : SameScan(s1[i], s2[i])
                           /\ Len(c1) = Len(c2) /\ \A i \in 1..Len(c1) : SameCon(c1[i], c2[i])

(* ---- the pose of the robot and the points of a scan ---- *)
AddPose(p, c) == [x |-> RAdd(p.x, c.x), y |-> RAdd(p.y, c.y), t |-> RAdd(p.t, c.t)]
MeanOf(cloud) ==
  LET n == RInt(Len(cloud))
  IN [x |-> RDiv(RSumF(cloud, LAMBDA p : p.x), n), y |-> RDiv(RSumF(cloud, LAMBDA p : p.y), n),
      t |-> RAtan2(RSumF(cloud, LAMBDA p : RSin(p.t)), RSumF(cloud, LAMBDA p : RCos(p.t)))]
RangeMax == IF RLt(cf.rmax, "0") THEN nd.smax ELSE cf.rmax
(* where the beams of scan e end, in the robot frame at the start of the scan *)
BeamEnds(e) == IF e.so = <<>> \/ e.eo = <<>> THEN <<>> ELSE
  LET n == Len(e.ranges)
      move == LET d == Relative(e.so[1], e.eo[1]) IN [d EXCEPT !.t = RNorm(d.t)]
      one(i) ==      \* beam i, from 1
        LET a == RAdd(e.amin, RMul(RInt(i - 1), e.ainc))
            aa == IF cf.inv THEN RNeg(a) ELSE a
            inRobot == Place(cf.mount, [x |-> RMul(e.ranges[i], RCos(aa)), y |-> RMul(e.ranges[i], RSin(aa))])
            k == IF n = 1 THEN "0" ELSE RDiv(RInt(i - 1), RInt(n - 1))
        IN Place([x |-> RMul(k, move.x), y |-> RMul(k, move.y), t |-> RMul(k, move.t)], inRobot)
      good == SelectSeq(Idx(n), LAMBDA i : ~RNaN(e.ranges[i]) /\ RLe(e.ranges[i], RangeMax))
  IN TLCEval([k \in 1..Len(good) |-> one(good[k])])
PtsTol == "1e-5"
SamePts(a, b) == \A i \in 1..Len(a) : RNear(a[i].x, b[i].x, PtsTol) /\ RNear(a[i].y, b[i].y, PtsTol)
Projected(pts) ==
  LET w == BeamEnds(inp.ev)
  IN Len(pts) = Len(w) /\ (SamePts(pts, w) \/ SamePts(pts, [i \in 1..Len(w) |-> w[Len(w) + 1 - i]]))

(* ---- the node ---- *)
So == IF inp.ev.so = <<>> THEN Id ELSE XYT(inp.ev.so[1])
Cur == CHOOSE g \in nd.curs : \A h \in nd.curs : h <= g       \* the newest
CurG == gr[Cur + 1]
OnCur(gid) == gid \in nd.curs
En == nd.en = {TRUE}
Settled == Cardinality(nd.curs) = 1 /\ Cardinality(nd.en) = 1
Main == Ev.th = "main"
Live == nd.phase \in {"boot", "up"}
HowOf(n) == [i \in 1..n |-> IF i <= Len(CurG.scans) THEN CurG.scans[i].how ELSE "file"]
NoInp == [kind |-> "none"]
Seen(g) == [scans |-> gr[g + 1].scans, cons |-> gr[g + 1].cons, grid |-> gr[g + 1].grid]
SeenNow == [k \in 1..Cardinality(nd.curs) |-> Seen(SetToSeq(nd.curs)[k])]
Pairs == {nd.trk} \cup (IF inp.kind = "none" THEN {} ELSE inp.cand)
NoLc(g) == [gid |-> g, next |-> M!FirstExamined(cf.depth), maybe |-> {}, q |-> -1, list |-> <<>>, open |-> FALSE, tried |-> 0, last |-> 0,
            closed |-> 0, nwake |-> 0, clean |-> FALSE, ran |-> FALSE, opted |-> FALSE, mixed |-> FALSE, drops |-> 0, pend |-> <<>>]
TInit == /\ l = 1 /\ cf = <<>> /\ files = <<>> /\ gr = <<>> /\ nd = [phase |-> "over"] /\ inp = NoInp /\ pb = <<>> /\ lc = <<>>
TNew == /\ IsEvent("new") /\ Must("the node before has ended", nd.phase = "over")
        /\ cf' = Ev /\ files' = <<>> /\ gr' = <<>> /\ inp' = NoInp
        /\ nd' = [phase |-> "boot", curs |-> {}, en |-> {Ev.enable /\ ~Ev.pf}, loc |-> (Ev.mapfile = ""), laser |-> "no", smax |-> "8",
                  trk |-> [r |-> Id, o |-> Id], by |-> "nothing", inits |-> {}, typ |-> {R("-0.5")}, tnew |-> R("-0.5"), thr |-> 0, dirty |-> FALSE, loaded |-> FALSE, failed |-> FALSE,
                  cloud |-> <<>>, lastgrid |-> "none", lastgraph |-> <<>>]
        /\ pb' = [awake |-> FALSE, pairs |-> {}, seen |-> <<>>, tfs |-> 0]
        /\ lc' = [gid |-> -1]
ScanRec(s, how) == [id |-> s.id, pose |-> XYT(s.pose), pts |-> s.pts, how |-> how]
TFile == /\ IsEvent("file")
         /\ files' = [f \in DOMAIN files \cup {Ev.f} |-> IF f = Ev.f THEN [scans |-> Ev.scans, cons |-> Ev.cons] ELSE files[f]]
         /\ UNCHANGED <<cf, gr, nd, inp, pb, lc>>
TUp == IsEvent("up") /\ nd' = [nd EXCEPT !.phase = "up"] /\ gr' = [i \in 1..Len(gr) |-> [gr[i] EXCEPT !.fresh = FALSE]] /\ UNCHANGED <<cf, files, inp, pb, lc>>
TBorn == /\ IsEvent("born") /\ Live
         /\ gr' = Append(gr, [scans |-> <<>>, cons |-> <<>>, grid |-> "none", fresh |-> TRUE])
         /\ Ev.gid = Len(gr)
         /\ LET load == inp.kind = "cfg" /\ inp.ev.load IN
              /\ nd' = [nd EXCEPT !.curs = IF nd.phase = "boot" THEN {Ev.gid} ELSE IF load THEN nd.curs \cup {Ev.gid} ELSE nd.curs]
              /\ inp' = IF load THEN [inp EXCEPT !.born = <<Ev.gid>>] ELSE inp
              /\ pb' = IF nd.phase = "boot" \/ load THEN [pb EXCEPT !.seen = Append(@, [scans |-> <<>>, cons |-> <<>>, grid |-> "none"])] ELSE pb
         /\ UNCHANGED <<cf, files, lc>>
-----------------------------------------------------------------------------
(* The map changed.                                                         *)
TG ==
  /\ IsEvent("g") /\ Live
  /\ LET k == Ev.gid + 1
         old == gr[k]
         n0 == Len(old.scans)
         m0 == Len(old.cons)
         how(i) == IF old.fresh THEN "file" ELSE IF inp.kind \notin {"scan", "pose"} THEN "nobody" ELSE IF i = 0 /\ inp.kind = "scan" THEN "first" ELSE inp.kind
         scans1 == TLCEval(FoldLeft(LAMBDA a, s : IF s.i < Len(a) THEN [a EXCEPT ![s.i + 1] = ScanRec(s, a[s.i + 1].how)] ELSE Append(a, ScanRec(s, how(s.i))),
                                    SubSeq(old.scans, 1, Least(n0, Ev.n)), Ev.scans))
         cons1 == TLCEval(FoldLeft(LAMBDA a, c : IF c.i < Len(a) THEN [a EXCEPT ![c.i + 1] = c] ELSE Append(a, c),
                                   SubSeq(old.cons, 1, Least(m0, Ev.m)), Ev.cons))
         added == SelectSeq(Ev.scans, LAMBDA s : s.i >= n0)
         moved == SelectSeq(Ev.scans, LAMBDA s : s.i < n0)
         newcons == SelectSeq(Ev.cons, LAMBDA c : c.i >= m0)
         ties == SelectSeq(newcons, LAMBDA c : ~c.sw)
         closures == SelectSeq(newcons, LAMBDA c : c.sw)
         cur == OnCur(Ev.gid) /\ nd.phase = "up" /\ ~old.fresh
         mapping == cur /\ added # <<>> /\ inp.kind = "scan"
         placing == cur /\ added # <<>> /\ inp.kind = "pose"
         moved0 == IF cur THEN moved ELSE <<>>
         closed0 == IF cur THEN closures ELSE <<>>
         one == added[1]
         before == old.scans[n0]
         pair == IF mapping THEN {[r |-> XYT(one.pose), o |-> So]} ELSE {}
     IN
     /\ Must("nothing disappears from the map", Ev.n >= n0 /\ Ev.m >= m0)
     (* M03 *)
     /\ P({"M03"}) => Must("the map does not change while mapping is disabled", ~(cur /\ nd.en = {FALSE}))
     (* M02 *)
     /\ P({"M02"}) => Must("nodes come from scans and initial poses", cur /\ added # <<>> => inp.kind \in {"scan", "pose"})
     (* M10 *)
     /\ (P({"M10"}) /\ old.fresh) =>
          LET f == IF nd.phase = "boot" THEN cf.mapfile ELSE IF inp.kind = "cfg" THEN inp.ev.file ELSE ""
          IN f \in DOMAIN files => Must("the map is that of the file", SameMap(scans1, cons1, files[f].scans, files[f].cons))
     (* M12 *)
     /\ (P({"M12"}) /\ mapping) => Must("points of the node", Projected(one.pts))
     (* M07 *)
     /\ (P({"M07"}) /\ mapping) =>
          IF n0 = 0 THEN Must("the first scan is the origin", Same(one.pose, Id))
          ELSE /\ Must("matched before placed", inp.match # <<>>)
               /\ Must("placed at the corrected prediction", Same(one.pose, AddPose(inp.match[1].pose, inp.match[1].corr)))
     /\ (P({"M07"}) /\ cur /\ inp.kind = "scan" /\ ties # <<>>) =>
          LET c == ties[1]
              n == Len(scans1)
              at == IF mapping THEN one.pose ELSE (IF inp.cand = {} THEN Id ELSE (CHOOSE p \in inp.cand : TRUE).r)
          IN /\ Must("one tie per scan", Len(ties) = 1 /\ c.b = n - 2 /\ c.to = n - 1)
             /\ Must("tie: relative pose", Same(c.tr, Relative(scans1[n - 1].pose, at))
                                           \/ \E h \in 1..Len(inp.hist) : Len(inp.hist[h].scans) >= n - 1 /\ Same(c.tr, Relative(inp.hist[h].scans[n - 1].pose, at)))
             /\ Must("tie: inverse of the covariance", inp.match # <<>> /\ InverseOf(c.info, inp.match[1].cov))
     (* M04 *)
     /\ (P({"M04"}) /\ placing) =>
          LET node == ScanRec(one, "pose")
              r == NearTo(old.scans, [node EXCEPT !.pts = <<>>], n0, NearEnough)
          IN /\ Must("one node per initial pose", Len(added) = 1 /\ inp.added = <<>>)
             /\ Must("the node is at the initial pose, without points", Same(one.pose, inp.ev.p) /\ one.pts = <<>>)
             /\ Must("tied once", Len(ties) = 1)
             /\ LET c == ties[1]
                    o == IF c.b = one.i THEN c.to ELSE c.b
                IN /\ Must("tied to the nearest", one.i \in {c.b, c.to} /\ o \in 0..(n0 - 1) /\ (r.open \/ (r.list # <<>> /\ o = r.list[1])))
                   /\ Must("tie: relative pose", Same(c.tr, Relative(scans1[c.b + 1].pose, scans1[c.to + 1].pose)))
                   /\ Must("tie: the covariance given", InverseOf(c.info, Diag(inp.ev.cov)))
     (* M09 *)
     /\ P({"M09"}) =>
          /\ Must("only loop closure and optimization move scans", \A i \in 1..Len(moved0) : Ev.by = "opt" \/
               /\ lc.gid = Ev.gid /\ lc.pend # <<>> /\ lc.pend[1].q = moved0[i].i /\ ~lc.pend[1].moved
               /\ Same(moved0[i].pose, AddPose(lc.pend[1].pose, lc.pend[1].corr)))
          /\ Must("nothing but poses of existing scans changes", cur => (\A i \in 1..Len(Ev.cons) : Ev.cons[i].i >= m0)
                                                               /\ (\A i \in 1..Len(moved0) : LET o == old.scans[moved0[i].i + 1] IN o.id = moved0[i].id /\ o.pts = moved0[i].pts))
          /\ Must("one constraint per closed loop", closed0 = <<>> \/ (Len(closed0) = 1 /\ lc.gid = Ev.gid /\ lc.pend # <<>> /\ lc.pend[1].tied = 0))
          /\ closed0 # <<>> =>
               LET c == closed0[1]
                   p == lc.pend[1]
               IN /\ Must("closes the loop between scan and candidate", {c.b, c.to} = {p.q, p.b} \/ (p.b = -1 /\ p.q \in {c.b, c.to}))
                  /\ Must("loop: relative pose", Same(c.tr, Relative(scans1[c.b + 1].pose, scans1[c.to + 1].pose)))
                  /\ Must("loop: inverse of the covariance", InverseOf(c.info, p.cov))
     /\ gr' = [gr EXCEPT ![k] = [scans |-> scans1, cons |-> cons1, grid |-> Ev.grid, fresh |-> FALSE]]
     /\ inp' = IF inp.kind = "none" \/ ~OnCur(Ev.gid) \/ old.fresh THEN inp
               ELSE [inp EXCEPT !.added = @ \o [j \in 1..Len(added) |-> added[j].i], !.cand = @ \cup pair,
                                !.near = IF inp.kind = "pose" /\ inp.added = <<>> THEN @ \cup NearPose(old.scans, inp.ev) \cup (IF added = <<>> THEN NearPose(scans1, inp.ev) ELSE {}) ELSE @,
                                !.hist = Append(@, [scans |-> scans1, cons |-> cons1])]
     /\ pb' = IF OnCur(Ev.gid) /\ pb.awake THEN [pb EXCEPT !.seen = Append(@, [scans |-> scans1, cons |-> cons1, grid |-> Ev.grid]),
                                                           !.pairs = @ \cup pair]
              ELSE pb
     /\ nd' = IF OnCur(Ev.gid) THEN [nd EXCEPT !.dirty = TRUE] ELSE nd
     /\ lc' = IF lc.gid = Ev.gid /\ lc.pend # <<>> /\ Ev.by # "opt"
              THEN [lc EXCEPT !.pend[1].moved = @ \/ (\E i \in 1..Len(moved) : moved[i].i = lc.pend[1].q), !.pend[1].tied = @ + Len(closures)] ELSE lc
     /\ UNCHANGED <<cf, files>>
-----------------------------------------------------------------------------
(* Inputs.                                                                  *)
Begin(kind) ==
  [kind |-> kind, ev |-> Ev, out |-> {}, n0 |-> Len(CurG.scans), ncons |-> Cardinality({i \in 1..Len(CurG.cons) : ~CurG.cons[i].sw}),
   added |-> <<>>, cand |-> {}, match |-> <<>>, points |-> FALSE, cloud |-> FALSE, born |-> <<>>, near |-> {},
   hist |-> <<[scans |-> CurG.scans, cons |-> CurG.cons]>>]
Definite == CHOOSE b \in nd.en : TRUE
(* travelled since the last accepted scan or initial pose; borderline cases are open *)
Far(so) ==
  LET d == Dist(so, nd.trk.o)
      a == RAbs(RNorm(RSub(so.t, nd.trk.o.t)))
      yes == RLt(RAdd(cf.mintrav, Eps), d) \/ RLt(RAdd(cf.minrot, Eps), a)
      no == RLt(RAdd(d, Eps), cf.mintrav) /\ RLt(RAdd(a, Eps), cf.minrot)
  IN IF yes THEN {TRUE} ELSE IF no THEN {FALSE} ELSE BOOLEAN
TInScan ==
  /\ IsEvent("in_scan") /\ nd.phase = "up" /\ Must("one input at a time", inp.kind = "none")
  /\ LET (* the mounting pose may have been looked up by an earlier scan *)
         laser == IF Ev.laser \/ nd.laser = "used" THEN {TRUE} ELSE IF nd.laser = "seen" THEN BOOLEAN ELSE {FALSE}
         have == Ev.so # <<>> /\ Ev.eo # <<>>
         far == IF Ev.so = <<>> THEN {FALSE} ELSE Far(Ev.so[1])
     IN inp' = [Begin("scan") EXCEPT !.out = {M!ScanOutcome(x /\ have, nd.loc, CurG.scans = <<>>, f, cf.pf, Definite) : x \in laser, f \in far}]
  /\ nd' = [nd EXCEPT !.smax = Ev.smax, !.laser = IF @ = "used" THEN @ ELSE IF Ev.laser THEN "seen" ELSE @]
  /\ UNCHANGED <<cf, files, gr, pb, lc>>
PoseUsable(e) == e.frame = "map" /\ e.odom # <<>>
TInPose ==
  /\ IsEvent("in_pose") /\ nd.phase = "up" /\ Must("one input at a time", inp.kind = "none")
  /\ LET near == NearPose(CurG.scans, Ev)
         pair == IF PoseUsable(Ev) THEN {[r |-> XYT(Ev.p), o |-> XYT(Ev.odom[1])]} ELSE {}
         maybe == {M!PoseOutcome(PoseUsable(Ev), nd.loc, b, cf.pf, Definite) : b \in BOOLEAN}
         some == IF maybe = {"none"} THEN {} ELSE pair
     IN inp' = [Begin("pose") EXCEPT !.near = near, !.cand = some] /\ pb' = [pb EXCEPT !.pairs = @ \cup some]
  /\ UNCHANGED <<cf, files, gr, nd, lc>>
TInCfg ==
  /\ IsEvent("in_cfg") /\ nd.phase = "up" /\ Must("one input at a time", inp.kind = "none")
  /\ inp' = Begin("cfg")
  /\ nd' = [nd EXCEPT !.en = @ \cup {M!EnabledAfter(b, Ev, cf.pf) : b \in nd.en}]
  /\ lc' = IF lc.gid >= 0 /\ (Ev.disable \/ Ev.load) THEN [lc EXCEPT !.clean = FALSE, !.drops = @ + 1, !.pend = IF @ = <<>> THEN @ ELSE <<[@[1] EXCEPT !.clean = FALSE]>>] ELSE lc
  /\ UNCHANGED <<cf, files, gr, pb>>
(* was an input that failed to load or save without consequences for the next one? *)
Judged(S) == P(S) \/ (P({"M10"}) /\ nd.failed)
RetScan ==
  LET acted == IF inp.added # <<>> THEN "map" ELSE IF inp.match # <<>> /\ inp.match[1].m = "global" THEN "localize"
               ELSE IF inp.cloud \/ inp.points THEN "filter" ELSE "none"
      trk == IF acted # "none" /\ inp.cand # {} THEN CHOOSE p \in inp.cand : TRUE ELSE nd.trk
  IN /\ Judged({"M02"}) => /\ Must("accepted scans become one node", inp.out = {"map"} => Len(inp.added) = 1)
                           /\ Must("other scans become no node", "map" \notin inp.out => inp.added = <<>>)
                           /\ Must("ignored scans have no effect", inp.out = {"none"} => acted = "none")
                           /\ Must("at most one node per scan", Len(inp.added) <= 1)
     /\ (P({"M04"}) /\ ~nd.loc) => Must("scans are ignored before localization", acted = "none" /\ inp.match = <<>>)
     /\ (P({"M07"}) /\ inp.out = {"map"} /\ inp.n0 > 0) => Must("matched against the window", inp.match # <<>> /\ inp.match[1].m = "local")
     /\ (P({"M07"}) /\ inp.out = {"map"} /\ inp.n0 > 0) => Must("tied to its predecessor",
             Cardinality({i \in 1..Len(CurG.cons) : ~CurG.cons[i].sw}) = inp.ncons + 1)
     /\ P({"M07"}) => Must("matched against the whole map", inp.out = {"localize"} => acted = "localize")
     /\ P({"M13"}) => Must("the filter is updated", inp.out = {"filter"} => inp.cloud /\ (inp.points \/ nd.cloud = <<>>))
     /\ P({"M13"}) => Must("the filter is left alone", "filter" \notin inp.out => ~inp.cloud /\ ~inp.points)
     /\ nd' = [nd EXCEPT !.trk = trk, !.by = IF acted = "none" THEN IF inp.out = {"none"} THEN "ignored" ELSE "unknown" ELSE acted,
                         !.typ = IF inp.match # <<>> /\ inp.match[1].m = "local" THEN {nd.tnew} ELSE @,
                         !.laser = IF acted # "none" THEN "used" ELSE @, !.failed = FALSE]
     /\ pb' = [pb EXCEPT !.pairs = @ \cup {trk}]
RetPose ==
  LET out == {M!PoseOutcome(PoseUsable(inp.ev), nd.loc, b, cf.pf, Definite) : b \in inp.near}
      ok == inp.added # <<>> \/ out = {"track"} \/ (out = {"filter"})
      trk == IF ok THEN [r |-> XYT(inp.ev.p), o |-> XYT(inp.ev.odom[1])] ELSE nd.trk
  IN /\ Judged({"M04"}) =>
          /\ Must("an accepted initial pose becomes a node when mapping", out = {"node"} => Len(inp.added) = 1)
          /\ Must("other initial poses become no node", "node" \notin out => inp.added = <<>>)
          /\ Must("ties", Cardinality({i \in 1..Len(CurG.cons) : ~CurG.cons[i].sw}) = inp.ncons + Len(inp.added))
          /\ Must("the filter is initialised by accepted poses only", inp.cloud <=> out = {"filter"})
     /\ nd' = [nd EXCEPT !.trk = trk, !.loc = @ \/ ok, !.by = IF ok THEN "pose" ELSE IF out \subseteq {"none"} THEN "rejected" ELSE "unknown", !.failed = FALSE]
     /\ pb' = [pb EXCEPT !.pairs = @ \cup {trk}]
RetCfg ==
  LET c == inp.ev
      loads == c.load /\ c.exists /\ ~c.broken
      curs == IF loads /\ inp.born # <<>> THEN {inp.born[1]} ELSE nd.curs \ {inp.born[i] : i \in 1..Len(inp.born)}
  IN /\ P({"M10"}) =>
          /\ Must("a map is loaded", loads => inp.born # <<>>)
          /\ Must("a map without scans", loads => LET g == gr[inp.born[1] + 1] IN ~g.fresh \/ (files[c.file].scans = <<>> /\ files[c.file].cons = <<>>))
          /\ Must("a failed load changes nothing", (c.load /\ ~loads) => inp.born = <<>>)
          /\ Must("requests add nothing to the map", inp.added = <<>>)
     /\ nd' = [nd EXCEPT !.curs = curs, !.en = {M!EnabledAfter(b, c, cf.pf) : b \in @}, !.loc = M!LocalizedAfter(@, c, cf.pf, loads),
                         !.dirty = @ \/ loads, !.loaded = @ \/ loads, !.by = "cfg",
                         !.failed = (c.load /\ ~loads) \/ (c.save /\ (~c.writable \/ c.exists))]
     /\ gr' = [i \in 1..Len(gr) |-> [gr[i] EXCEPT !.fresh = FALSE]]
     /\ pb' = [pb EXCEPT !.seen = IF loads THEN Append(@, [scans |-> gr'[(CHOOSE g \in curs : TRUE) + 1].scans, cons |-> gr'[(CHOOSE g \in curs : TRUE) + 1].cons,
                                                           grid |-> gr'[(CHOOSE g \in curs : TRUE) + 1].grid]) ELSE @]
TRet ==
  /\ IsEvent("ret") /\ nd.phase = "up" /\ Must("answers the input", inp.kind # "none" /\ inp.ev.k = Ev.k)
  /\ CASE inp.kind = "scan" -> RetScan /\ UNCHANGED gr
       [] inp.kind = "pose" -> RetPose /\ UNCHANGED gr
       [] inp.kind = "cfg" -> RetCfg
  /\ inp' = [kind |-> "none", was |-> inp]
  /\ UNCHANGED <<cf, files, lc>>
(* what was saved, read back *)
TSaved ==
  /\ IsEvent("saved") /\ inp.kind = "none"
  /\ files' = IF Ev.written THEN [f \in DOMAIN files \cup {Ev.f} |-> IF f = Ev.f THEN [scans |-> Ev.scans, cons |-> Ev.cons] ELSE files[f]] ELSE files
  /\ (P({"M10"}) /\ Ev.written) => Must("the saved map is the current one", \E h \in 1..Len(inp.was.hist) : SameMap(inp.was.hist[h].scans, inp.was.hist[h].cons, Ev.scans, Ev.cons))
  /\ P({"M10"}) => Must("the map is saved", Ev.written)
  /\ (P({"M01"}) /\ Ev.written) =>
       /\ Must("saved: ids are positions", \A i \in 1..Len(Ev.scans) : Ev.scans[i].id = i - 1)
       /\ Must("saved: constraints", M!WellFormed(Len(Ev.scans), HowOf(Len(Ev.scans)), Ev.cons))
  /\ UNCHANGED <<cf, gr, nd, inp, pb, lc>>
-----------------------------------------------------------------------------
(* Loop closure: the match that awaits its consequences.                    *)
Tiny(c) == RLt(RAbs(c.x), "1e-12") /\ RLt(RAbs(c.y), "1e-12") /\ RLt(RAbs(c.t), "1e-12")
Tracked == Prop \in {"M08", "M09"}
Decide ==
  (Prop = "M09" /\ lc.gid >= 0 /\ lc.pend # <<>>) =>
    LET p == lc.pend[1]
        all == RFinite(p.score) /\ \A t \in p.typ : RLt(RAdd(p.score, Eps), t)
        none == ~RFinite(p.score) \/ \A t \in p.typ : RLe(RAdd(t, Eps), p.score)
    IN /\ Must("a better match closes the loop", all /\ p.clean => p.tied = 1)
       /\ Must("others do not", none => p.tied = 0)
       /\ Must("the scan moves if and only if the loop is closed", (p.moved => p.tied = 1) /\ (p.tied = 1 => p.moved \/ Tiny(p.corr)))
Decided == IF lc.gid < 0 \/ lc.pend = <<>> THEN lc ELSE [lc EXCEPT !.pend = <<>>, !.closed = @ + lc.pend[1].tied]
LcMatch ==
  IF Ev.gid \notin nd.curs \/ Ev.i < 0 THEN UNCHANGED lc /\ (P({"M08"}) => Must("examines a scan of the map", Ev.i >= 0)) ELSE
  LET base == IF lc.gid = Ev.gid THEN lc ELSE [NoLc(Ev.gid) EXCEPT !.ran = TRUE]
      scans == gr[Ev.gid + 1].scans
      q == Ev.i
      cont == base.q = q
      fresh == IF cont THEN [list |-> base.list, open |-> base.open] ELSE TLCEval(Cand(scans, q))
      tried == IF cont THEN base.tried ELSE 0
      c == IF tried < Len(fresh.list) THEN fresh.list[tried + 1] ELSE -1
      region == {Ev.content[k].i : k \in 1..Len(Ev.content)}
  IN /\ P({"M08"}) =>
          /\ Must("at most the configured number of candidates", tried < cf.glimit)
          /\ Must("no scan twice, and in order", cont \/ q >= base.next)
          /\ Must("no scan is left out", cont \/ Cardinality({j \in base.next..(q - 1) : ~(j \in base.maybe \/ Shut(scans, j))}) <= base.drops)
          /\ Must("no candidate is left out", cont \/ base.q < 0 \/ base.open \/ ~base.clean \/ base.tried = Least(cf.glimit, Len(base.list)))
          /\ Must("a candidate before the window, in range, with points", fresh.open \/ c >= 0)
          /\ Must("the neighbourhood of the nearest candidate", fresh.open \/ c < 0 \/ (c \in region /\ region \subseteq M!Region(c)))
          /\ Must("of the same map", \A k \in 1..Len(Ev.content) : Ev.content[k].gid = Ev.gid)
     /\ lc' = [base EXCEPT !.q = q, !.list = fresh.list, !.open = fresh.open, !.tried = tried + 1, !.next = q + 1,
                 !.pend = <<[q |-> q, b |-> IF fresh.open THEN -1 ELSE c, pose |-> XYT(Ev.pose), score |-> Ev.score, corr |-> XYT(Ev.corr), cov |-> Ev.cov,
                             typ |-> nd.typ, clean |-> Settled /\ En /\ nd.phase = "up" /\ inp.kind # "cfg", moved |-> FALSE, tied |-> 0]>>]
(* scans that were examined without a match, seen at the end of a pass *)
Silent(x, n) == {j \in x.next..(n - 1) : j \notin x.maybe /\ Shut(gr[x.gid + 1].scans, j)}
(* a pass may have begun on another map than the one at its end *)
Ends(x) ==
  LET n == Len(gr[x.gid + 1].scans)
      silent == IF x.nwake > cf.depth THEN Silent(x, n) ELSE {}
      open == IF x.ran THEN {j \in x.next..(n - 1) : j \notin x.maybe \cup silent} ELSE {}
  IN [silent |-> silent, lost |-> IF open = {} THEN {} ELSE {CHOOSE j \in open : \A k \in open : j <= k}]
Began == LET x == [NoLc(Cur) EXCEPT !.ran = TRUE, !.nwake = Len(CurG.scans)] IN [x EXCEPT !.maybe = Ends(x).silent \cup Ends(x).lost]
LcWake == LET x == IF lc.gid \in nd.curs THEN lc ELSE IF lc.gid >= 0 /\ lc.mixed THEN Began ELSE NoLc(Cur)
          IN lc' = [x EXCEPT !.nwake = Len(gr[x.gid + 1].scans), !.mixed = FALSE, !.q = -1, !.list = <<>>, !.open = FALSE, !.tried = 0, !.closed = 0, !.drops = 0, !.opted = FALSE, !.ran = TRUE \in nd.en,
                             !.clean = Settled /\ En /\ "global" \in nd.inits /\ nd.phase = "up" /\ Ev.e = "wake" /\ inp.kind # "cfg"]
LcSleep ==
  IF lc.gid < 0 THEN UNCHANGED lc ELSE
  IF lc.gid \notin nd.curs THEN lc' = Began /\ Decide ELSE
  LET x == Decided
      sure == x.clean /\ Settled /\ En
      e == Ends(x)
      silent == e.silent
      lost == IF sure THEN {} ELSE e.lost
  IN /\ Decide
     /\ P({"M08"}) =>
          /\ Must("no scan is left out at the end of a pass", sure => \A j \in x.next..(x.nwake - 1) : j \in x.maybe \cup silent)
          /\ Must("no candidate is left out at the end of a pass", sure => x.q < 0 \/ x.open \/ x.tried = Least(cf.glimit, Len(x.list)))
     /\ P({"M09"}) => Must("optimizes after closing loops", sure /\ ~x.opted => ~M!WantsOptimize(x.closed, x.nwake, x.last, cf.optlimit))
     /\ lc' = [x EXCEPT !.maybe = @ \cup silent \cup lost, !.mixed = Cardinality(nd.curs) > 1, !.pend = <<>>]
TOpt ==
  /\ IsEvent("opt") /\ Live
  /\ Decide
  /\ P({"M10"}) => Must("only the current map is optimized", Ev.gid \in nd.curs)
  /\ (P({"M01"}) /\ Ev.gid \in nd.curs) =>
       /\ Must("optimizer: ids are positions", \A i \in 1..Len(Ev.ids) : Ev.ids[i] = i - 1)
       /\ Must("optimizer: constraints", M!WellFormed(Len(Ev.ids), [i \in 1..Len(Ev.ids) |-> IF i <= Len(gr[Ev.gid + 1].scans) THEN gr[Ev.gid + 1].scans[i].how ELSE "file"], Ev.cons))
  /\ P({"M09"}) => Must("optimizes only when warranted", lc.gid = Ev.gid /\ M!WantsOptimize(Decided.closed, Len(Ev.ids), lc.last, cf.optlimit))
  /\ lc' = IF Tracked /\ lc.gid >= 0 THEN [Decided EXCEPT !.opted = TRUE, !.maybe = IF Ev.gid = lc.gid THEN @ \cup Silent(lc, Len(Ev.ids)) ELSE @] ELSE lc
  /\ UNCHANGED <<cf, files, gr, nd, inp, pb>>
TOpted ==
  /\ IsEvent("opted") /\ Live
  /\ P({"M10"}) => Must("nothing of an old map influences the optimization", RLt(Ev.dev, "1e-2"))
  /\ lc' = IF Tracked /\ lc.gid >= 0 /\ lc.gid = Ev.gid THEN [lc EXCEPT !.last = Len(gr[lc.gid + 1].scans)] ELSE lc
  /\ UNCHANGED <<cf, files, gr, nd, inp, pb>>
-----------------------------------------------------------------------------
(* The scan matcher.                                                        *)
TMInit == /\ IsEvent("m_init") /\ nd' = [nd EXCEPT !.inits = @ \cup {Ev.m}]
          /\ P({"M12"}) => Must("maximum range of the matcher", RNear(Ev.range, RangeMax, PtsTol))
          /\ UNCHANGED <<cf, files, gr, inp, pb, lc>>
TMAdd ==
  /\ IsEvent("m_add") /\ Live
  /\ P({"M10"}) => Must("only scans of the current map", \A k \in 1..Len(Ev.s) : Ev.s[k].gid \in nd.curs)
  /\ IF Tracked /\ Ev.th = "lc" /\ Ev.m = "global" THEN Decide /\ lc' = Decided ELSE UNCHANGED lc
  /\ UNCHANGED <<cf, files, gr, nd, inp, pb>>
Holds(content, scans) ==
  /\ Len(content) = Len(scans)
  /\ \/ \A k \in 1..Len(scans) : PoseBits(content[k].pose, scans[k].pose)
     \/ /\ \A k \in 1..Len(scans) : \E j \in 1..Len(content) : PoseBits(content[j].pose, scans[k].pose)
        /\ \A j \in 1..Len(content) : \E k \in 1..Len(scans) : PoseBits(content[j].pose, scans[k].pose)
WindowOf(scans) == LET n == Len(scans) IN SubSeq(scans, IF n <= cf.depth THEN 1 ELSE n - cf.depth + 1, n)
MainMatch ==
  /\ P({"M07"}) =>
       IF Ev.m = "local"
       THEN /\ Must("matched at the predicted pose", Same(Ev.pose, M!Predict(nd.trk, So)))
            /\ Must("the most recent scans, up to the depth of the window", \E h \in 1..Len(inp.hist) : Holds(Ev.content, WindowOf(inp.hist[h].scans)))
       ELSE /\ Must("matched at the predicted pose", CurG.scans = <<>> \/ Same(Ev.pose, M!Predict(nd.trk, So)))
            /\ Must("all scans of the current map", Holds(Ev.content, CurG.scans))
  /\ (P({"M10"}) /\ Ev.m = "global") => Must("all scans of the loaded map", Holds(Ev.content, CurG.scans))
  /\ P({"M12"}) => Must("points of the scan that is matched", Projected(Ev.pts))
  /\ LET pair == IF Ev.m = "global" THEN {[r |-> AddPose(Ev.pose, Ev.corr), o |-> So]} ELSE {}
         new == RAdd(RMul("0.95", CHOOSE t \in nd.typ : TRUE), RMul("0.05", Ev.score))
     IN /\ inp' = [inp EXCEPT !.match = <<[m |-> Ev.m, pose |-> XYT(Ev.pose), corr |-> XYT(Ev.corr), cov |-> Ev.cov, score |-> Ev.score]>>, !.cand = @ \cup pair]
        /\ pb' = [pb EXCEPT !.pairs = @ \cup pair]
        /\ nd' = IF Ev.m = "local" THEN [nd EXCEPT !.tnew = new, !.typ = @ \cup {new}] ELSE nd
        /\ lc' = IF Ev.m = "local" /\ lc.gid >= 0 /\ lc.pend # <<>> THEN [lc EXCEPT !.pend[1].typ = @ \cup {new}] ELSE lc
TMMatch ==
  /\ IsEvent("m_match") /\ Live
  /\ IF Main /\ inp.kind = "scan" THEN MainMatch
     ELSE /\ IF Tracked /\ Ev.th = "lc" /\ Ev.m = "global" THEN LcMatch ELSE UNCHANGED lc
          /\ P({"M10"}) => Must("a match within one map", \A k \in 1..Len(Ev.content) : Ev.content[k].gid = Ev.gid)
          /\ UNCHANGED <<nd, inp, pb>>
  /\ UNCHANGED <<cf, files, gr>>
Mo == INSTANCE Motion
MovedBy(p, q, d) ==
  /\ RAngClose(q.t, RAdd(p.t, d.t), "1e-6")
  /\ IF RLe(Mo!Trans(d), "0.011") THEN RLe(Dist(p, q), RAdd(Mo!Trans(d), "1e-6"))
     ELSE LET w == Compose(p, [x |-> d.x, y |-> d.y, t |-> "0"]) IN RNear(q.x, w.x, "1e-6") /\ RNear(q.y, w.y, "1e-6")
TMPoints ==
  /\ IsEvent("m_points") /\ Live
  /\ IF inp.kind = "scan" /\ Main THEN
       /\ P({"M13"}) =>
            /\ Must("fit to the whole current map", Holds(Ev.content, CurG.scans))
            /\ (nd.cloud # <<>> /\ CurG.scans # <<>>) =>
                 LET d == TLCEval(Relative(nd.trk.o, So)) IN
                 Must("particles moved by the odometry displacement", Len(Ev.at) = Len(nd.cloud) /\
                        ((\A i \in 1..Len(Ev.at) : MovedBy(nd.cloud[i], Ev.at[i], d)) \/
                         (\A i \in 1..Len(Ev.at) : \E j \in 1..Len(nd.cloud) : MovedBy(nd.cloud[j], Ev.at[i], d))))
       /\ P({"M12"}) => Must("points of the scan that is weighed", Projected(Ev.pts))
       /\ inp' = [inp EXCEPT !.points = TRUE] @@ [scored |-> Ev.at]
     ELSE UNCHANGED inp
  /\ UNCHANGED <<cf, files, gr, nd, pb, lc>>
TCloud ==
  /\ IsEvent("cloud") /\ Live
  /\ P({"M13"}) => Must("in the map frame", Ev.frame = "map")
  /\ P({"M13"}) => Must("published after updates and initial poses", inp.kind \in {"scan", "pose"})
  /\ (P({"M13"}) /\ inp.kind = "scan" /\ inp.points) =>
       LET good == SelectSeq(inp.scored, LAMBDA p : RLt(p.v, "0"))
           from == IF good = <<>> THEN inp.scored ELSE good
       IN /\ Must("drawn from the particles that fit", \A i \in 1..Len(Ev.at) : \E j \in 1..Len(from) : PoseClose(Ev.at[i], from[j], "1e-6"))
          /\ Must("within the configured limits", Len(Ev.at) \in cf.minp..cf.maxp)
  /\ (P({"M13"}) /\ inp.kind = "pose") =>
       LET p == inp.ev.p
           dev(f(_), s) == LET v == RSqrt(s) IN
             /\ \A i \in 1..Len(Ev.at) : RLe(RAbs(f(Ev.at[i])), RAdd(RMul("7", v), "1e-6"))
             /\ RLe(RMul(v, "0.15"), RSqrt(RDiv(RSumF(Ev.at, LAMBDA q : RMul(f(q), f(q))), RInt(Len(Ev.at)))))
       IN Must("particles around the initial pose", dev(LAMBDA q : RSub(q.x, p.x), inp.ev.cov[1]) /\ dev(LAMBDA q : RSub(q.y, p.y), inp.ev.cov[2])
                                                    /\ dev(LAMBDA q : RNorm(RSub(q.t, p.t)), inp.ev.cov[3]))
  /\ LET pair == IF inp.kind = "scan" THEN {[r |-> MeanOf(Ev.at), o |-> So]} ELSE {}
     IN /\ inp' = IF inp.kind = "none" THEN inp ELSE [inp EXCEPT !.cloud = TRUE, !.cand = @ \cup pair]
        /\ pb' = [pb EXCEPT !.pairs = @ \cup pair]
  /\ nd' = [nd EXCEPT !.cloud = Ev.at]
  /\ UNCHANGED <<cf, files, gr, lc>>
-----------------------------------------------------------------------------
(* The publisher.                                                           *)
AtPose(p, pose) == RNear(p.x, pose.x, "1e-9") /\ RNear(p.y, pose.y, "1e-9")
Joins(e, a, b) == (AtPose(e.a, a) /\ AtPose(e.b, b)) \/ (AtPose(e.a, b) /\ AtPose(e.b, a))
Shows(e, s) ==
  /\ Len(e.nodes) = Len(s.scans) /\ Len(e.edges) = Len(s.cons)
  /\ \A i \in 1..Len(s.scans) : AtPose(e.nodes[i].at, s.scans[i].pose)
  /\ \A i \in 1..Len(s.cons) : /\ s.cons[i].b < Len(s.scans) /\ s.cons[i].to < Len(s.scans)
                               /\ Joins(e.edges[i], s.scans[s.cons[i].b + 1].pose, s.scans[s.cons[i].to + 1].pose)
States == [k \in 1..Len(pb.seen) |-> pb.seen[k]]
OneInstant == P({"M05"}) \/ (P({"M10"}) /\ nd.loaded)
TPubMap ==
  /\ IsEvent("pub_map") /\ Live
  /\ OneInstant => Must("the published grid is that of one instant", ~pb.awake \/ \E k \in 1..Len(pb.seen) : pb.seen[k].grid \in {Ev.grid, "none"})
  /\ P({"M05"}) => Must("in the map frame", Ev.frame = "map")
  /\ nd' = [nd EXCEPT !.lastgrid = Ev.grid]
  /\ UNCHANGED <<cf, files, gr, inp, pb, lc>>
TPubGraph ==
  /\ IsEvent("pub_graph") /\ Live
  /\ OneInstant => Must("the published graph is that of one instant", ~pb.awake \/ \E k \in 1..Len(pb.seen) : Shows(Ev, pb.seen[k]))
  /\ P({"M01"}) =>
       LET n == Len(Ev.nodes)
           at(i) == Ev.nodes[i].at
       IN /\ Must("published: ids are positions", \A i \in 1..n : Ev.nodes[i].id = i - 1)
          /\ Must("published: constraints join two scans", \A k \in 1..Len(Ev.edges) : \E i, j \in 1..n : i # j /\ Joins(Ev.edges[k], at(i), at(j)))
          /\ Must("published: every scan is tied", ~pb.awake \/ \E k \in 1..Len(pb.seen) : LET s == pb.seen[k].scans IN
                Len(s) >= n /\ \A i \in 2..n : CASE s[i].how = "scan" -> \E x \in 1..Len(Ev.edges) : Joins(Ev.edges[x], at(i - 1), at(i))
                                                 [] s[i].how = "pose" -> \E x \in 1..Len(Ev.edges) : \E j \in 1..(i - 1) : Joins(Ev.edges[x], at(j), at(i))
                                                 [] OTHER -> TRUE)
  /\ nd' = [nd EXCEPT !.lastgraph = <<Ev>>]
  /\ UNCHANGED <<cf, files, gr, inp, pb, lc>>
TTf ==
  /\ IsEvent("tf") /\ Live
  /\ LET known == Cardinality(pb.pairs) = 1 /\ inp.kind = "none" /\ pb.pairs = {nd.trk}
         ok == Same(Ev.p, M!MapToOdom(nd.trk))
     IN /\ P({"M06"}) =>
             /\ Must("map to odometry", Ev.frame = "map" /\ Ev.child = "odom" /\ Ev.flat)
             /\ Must("of one pose update, not older than the wake-up", ~pb.awake \/ \E p \in pb.pairs : Same(Ev.p, M!MapToOdom(p)))
             /\ Must("only for a map with scans", ~pb.awake \/ \E k \in 1..Len(pb.seen) : pb.seen[k].scans # <<>>)
        /\ (P({"M02"}) /\ nd.by = "ignored" /\ known) => Must("ignored scans leave the tracked pose", ok)
        /\ (P({"M04"}) /\ nd.by \in {"pose", "rejected"} /\ known) => Must("initial poses set the tracked pose if and only if accepted", ok)
        /\ (P({"M07"}) /\ nd.by \in {"map", "localize"} /\ known) => Must("the tracked pose is the corrected one", ok)
        /\ (P({"M13"}) /\ nd.by = "filter" /\ known) => Must("the tracked pose is the mean of the filter", ok)
        /\ (P({"M10"}) /\ nd.by = "cfg" /\ known) => Must("requests leave the tracked pose", ok)
  /\ pb' = [pb EXCEPT !.tfs = @ + 1]
  /\ UNCHANGED <<cf, files, gr, nd, inp, lc>>
PubWake == pb' = [awake |-> TRUE, pairs |-> Pairs, seen |-> SeenNow, tfs |-> 0]
PubSleep == /\ P({"M06"}) => Must("published while there is a map", pb.awake /\ nd.phase = "up" /\ (\A k \in 1..Len(pb.seen) : pb.seen[k].scans # <<>>) => pb.tfs >= 1)
            /\ pb' = [pb EXCEPT !.awake = FALSE]
TWake == /\ (IsEvent("wake") \/ IsEvent("start")) /\ Live
         /\ nd' = IF Ev.e = "start" THEN [nd EXCEPT !.thr = @ + 1] ELSE nd
         /\ IF Ev.th = "pub" /\ nd.curs # {} THEN PubWake ELSE UNCHANGED pb
         /\ IF Ev.th = "lc" /\ Tracked /\ nd.curs # {} THEN LcWake ELSE UNCHANGED lc
         /\ UNCHANGED <<cf, files, gr, inp>>
TSleep == /\ IsEvent("sleep") /\ Live
          /\ IF Ev.th = "pub" THEN PubSleep ELSE UNCHANGED pb
          /\ IF Ev.th = "lc" /\ Tracked THEN LcSleep ELSE UNCHANGED lc
          /\ UNCHANGED <<cf, files, gr, nd, inp>>
TQuiet == /\ IsEvent("quiet") /\ Live
          /\ (P({"M05"}) /\ nd.dirty) =>
               /\ Must("the last published grid is the final map", CurG.grid \in {nd.lastgrid, "none"} /\ nd.lastgrid # "none")
               /\ Must("the last published graph is the final map", nd.lastgraph # <<>> /\ Shows(nd.lastgraph[1], CurG))
          /\ UNCHANGED <<cf, files, gr, nd, inp, pb, lc>>
TExit == /\ IsEvent("exit") /\ Must("threads end at shutdown only", nd.phase = "stopping") /\ nd' = [nd EXCEPT !.thr = @ - 1]
         /\ UNCHANGED <<cf, files, gr, inp, pb, lc>>
TStop == /\ IsEvent("stop") /\ Must("every input is answered", inp.kind = "none") /\ nd' = [nd EXCEPT !.phase = "stopping"]
         /\ UNCHANGED <<cf, files, gr, inp, pb, lc>>
(* shutting down: whatever is under way comes to an end *)
TEnding == /\ nd.phase = "stopping" /\ l <= Len(Trace) /\ l' = l + 1
           /\ Ev.e \notin {"new", "down", "exit", "crash", "hang", "deadlock", "threw"}
           /\ nd' = IF Ev.e = "start" THEN [nd EXCEPT !.thr = @ + 1] ELSE nd
           /\ UNCHANGED <<cf, files, gr, inp, pb, lc>>
TDown == /\ IsEvent("down") /\ nd.phase = "stopping"
         /\ P({"M11"}) => Must("shutdown ends all activities", nd.thr = 0)
         /\ nd' = [nd EXCEPT !.phase = "over"]
         /\ UNCHANGED <<cf, files, gr, inp, pb, lc>>
TOther == /\ IsEvent("pub_other") /\ UNCHANGED vars
TNext == TNew \/ TFile \/ TUp \/ TBorn \/ TG \/ TInScan \/ TInPose \/ TInCfg \/ TRet \/ TSaved \/ TOpt \/ TOpted \/ TMInit \/ TMAdd \/ TMMatch
         \/ TMPoints \/ TCloud \/ TPubMap \/ TPubGraph \/ TTf \/ TWake \/ TSleep \/ TQuiet \/ TExit \/ TStop \/ TEnding \/ TDown \/ TOther
View == l
(* the last execution came to its end *)
Ended == l = Len(Trace) + 1 => nd.phase = "over"
=============================================================================

----------------------------- MODULE Tr_Matcher -----------------------------
(* S01, S02, S03: executions of the real NDT scan matcher.  The map is an   *)
(* Ndt grid over the scans added last; every score of the search window is  *)
(* computed from it.                                                        *)
EXTENDS TraceBase, NdtReal
CONSTANT Prop
VARIABLES g, pts, cells, fresh,   \* the NDT
          has,                    \* there is a map
          prm                     \* configuration
N == INSTANCE Ndt WITH Sub <- RSub, Div <- RDiv, Floor <- RFloor, Lt <- RLt, PlaceAt <- Place, Stats <- CellStats, Score <- CellScore, Total <- RSum
NoGrid == [cell |-> "1", sx |-> "1", sy |-> "1", ox |-> "0", oy |-> "0"]
TInit == g = NoGrid /\ pts = <<>> /\ cells = <<>> /\ fresh = FALSE /\ l = 1 /\ has = FALSE /\ prm = <<>>
TNew == IsEvent("new") /\ prm' = Ev /\ has' = FALSE /\ N!Create(NoGrid)

(* the map of a sequence of scans *)
MinOf(s) == FoldLeft(LAMBDA a, b : RMin(a, b), s[1], s)
MaxOf(s) == FoldLeft(LAMBDA a, b : RMax(a, b), s[1], s)
GridFor(scans) ==
  LET xs == [i \in 1..Len(scans) |-> scans[i].pose.x]
      ys == [i \in 1..Len(scans) |-> scans[i].pose.y]
      ox == RSub(MinOf(xs), prm.range)
      oy == RSub(MinOf(ys), prm.range)
  IN [cell |-> prm.res, ox |-> ox, oy |-> oy, sx |-> RSub(RAdd(MaxOf(xs), prm.range), ox), sy |-> RSub(RAdd(MaxOf(ys), prm.range), oy)]
(* the borders of the cells are where the grid puts them; what counts is which points share a cell *)
GCell(gr, p) == <<RFloor(RDiv(RSub(p.x, gr.ox), gr.cell)), RFloor(RDiv(RSub(p.y, gr.oy), gr.cell))>>
AllPoints(scans) == FlattenSeq([i \in 1..Len(scans) |-> [j \in 1..Len(scans[i].pts) |-> Place(scans[i].pose, scans[i].pts[j])]])
TAdd == /\ IsEvent("add")
        /\ Must("scans unchanged", Ev.same)
        /\ IF Ev.scans = <<>> THEN UNCHANGED <<g, pts, cells, fresh, has, prm>>
           ELSE /\ has' = TRUE /\ fresh' = TRUE /\ prm' = prm
                /\ g' = TLCEval(GridFor(Ev.scans))
                /\ pts' = TLCEval(AllPoints(Ev.scans))
                /\ cells' = TLCEval(LET ids == TLCEval([i \in 1..Len(pts') |-> GCell(g', pts'[i])])
                                    IN [c \in {ids[i] : i \in 1..Len(ids)} |->
                                          CellStats([j \in 1..Len(SelectSeq(ids, LAMBDA d : d = c)) |->
                                             pts'[SetToSortSeq({i \in 1..Len(ids) : ids[i] = c}, <)[j]]])])
TReset == IsEvent("reset") /\ has' = FALSE /\ N!Create(NoGrid) /\ UNCHANGED prm

(* the beams a score uses *)
Used(ps) == LET n == Len(ps)
                m == IF prm.beams < n THEN prm.beams ELSE n
            IN [i \in 1..m |-> ps[(((i - 1) * n) \div m) + 1]]
Mean(sum, m) == IF m = 0 THEN "0" ELSE RDiv(RNeg(sum), RInt(m))
ScoreAt(pose, used) == IF ~has THEN "0"
  ELSE Mean(FoldLeft(LAMBDA a, p : RAdd(a, N!Likelihood(Place(pose, p))), "0", used), Len(used))
(* second moments are kept about the origin: their rounding grows with the square of the distance to it *)
Mag2 == LET m == RMax("1", RMax(RAbs(g.ox), RAbs(g.oy))) IN RMul(m, m)
Tol == RAdd("1e-6", RMul("1e-8", Mag2))
Close(a, b) == RNear(a, b, Tol)
TScore == /\ IsEvent("score") /\ UNCHANGED <<g, pts, cells, fresh, has, prm>>
          /\ Must("finite score", RFinite(Ev.v) /\ RLe(Ev.v, "0"))
          /\ Must("scan unchanged", Ev.same)
          /\ Must("score", Close(Ev.v, ScoreAt(Ev.pose, Used(Ev.pts))))
          /\ Must("scan scores like its points", Close(Ev.v, Ev.vscan))

(* the search window *)
Axis(size, res) == LET n == RFloor(RSub(RDiv(RMul("2", size), res), "1e-6")) + 1   \* offsets below size
                   IN [i \in 1..n |-> RAdd(RNeg(size), RMul(RInt(i - 1), res))]
Window(used, pose) ==
  LET ts == Axis(prm.asize, prm.ares)
      xs == Axis(prm.lsize, prm.lres)
      per(t) == LET c == RCos(RAdd(pose.t, t))
                    s == RSin(RAdd(pose.t, t))
                    rp == TLCEval([i \in 1..Len(used) |-> LET q == Rot(c, s, used[i]) IN [x |-> RAdd(q.x, pose.x), y |-> RAdd(q.y, pose.y)]])
                    at(dx, dy) == FoldLeft(LAMBDA a, p : RAdd(a, N!Likelihood([x |-> RAdd(p.x, dx), y |-> RAdd(p.y, dy)])), "0", rp)
                IN TLCEval(FlattenSeq([i \in 1..Len(xs) |-> [j \in 1..Len(xs) |-> [o |-> <<xs[i], xs[j], t>>, w |-> at(xs[i], xs[j])]]]))
  IN TLCEval(FlattenSeq([i \in 1..Len(ts) |-> per(ts[i])]))
OnAxis(v, size, res) == \E i \in 1..Len(Axis(size, res)) : RNear(v, Axis(size, res)[i], "1e-9")
(* weighted central moments, in two passes *)
Moments(win) ==
  LET tot == FoldLeft(LAMBDA a, e : RAdd(a, e.w), "0", win)
      mean == TLCEval([i \in 1..3 |-> RDiv(FoldLeft(LAMBDA a, e : RAdd(a, RMul(e.w, e.o[i])), "0", win), tot)])
  IN [tot |-> tot,
      cov |-> TLCEval([ij \in 1..9 |-> LET i == ((ij - 1) \div 3) + 1  j == ((ij - 1) % 3) + 1
                               IN RDiv(FoldLeft(LAMBDA a, e : RAdd(a, RMul(e.w, RMul(RSub(e.o[i], mean[i]), RSub(e.o[j], mean[j])))), "0", win), tot)])]
Scale(i) == IF i = 3 THEN prm.asize ELSE prm.lsize
Uniform(cov) == \A i, j \in 1..3 :
   LET v == IF i = j THEN RDiv(RMul(Scale(i), Scale(i)), "3") ELSE "0" IN RNear(cov[(i-1)*3+j], v, RMul("1e-9", RMul(Scale(i), Scale(j))))
(* a small total comes from large exponents, whose rounding shows in the weights *)
CovTol(tot) == RMul(RAdd("1e-5", RMul("1e-7", Mag2)), IF RLt(tot, "0.001") THEN "100" ELSE "1")
CovOk(win) ==
  LET m == TLCEval(Moments(win))
  IN \/ RLt("1e-90", m.tot) /\ \A i, j \in 1..3 :
          RNear(Ev.cov[(i-1)*3+j], m.cov[(i-1)*3+j], RMul(CovTol(m.tot), RMul(Scale(i), Scale(j))))
     \/ RLt(m.tot, "1e-110") /\ Uniform(Ev.cov)
     \/ RLe("1e-110", m.tot) /\ RLe(m.tot, "1e-90")
CovSane == /\ \A i, j \in 1..3 : RFinite(Ev.cov[(i-1)*3+j]) /\ RNear(Ev.cov[(i-1)*3+j], Ev.cov[(j-1)*3+i], RMul("1e-9", RMul(Scale(i), Scale(j))))
           /\ \A i \in 1..3 : RLe("-1e-12", Ev.cov[(i-1)*4+1]) /\ RLe(Ev.cov[(i-1)*4+1], RMul("1.000001", RMul(Scale(i), Scale(i))))
           /\ \A i, j \in 1..3 : RLe(RMul(Ev.cov[(i-1)*3+j], Ev.cov[(i-1)*3+j]),
                                     RAdd(RMul(Ev.cov[(i-1)*4+1], Ev.cov[(j-1)*4+1]), RMul("1e-9", RMul(RMul(Scale(i), Scale(j)), RMul(Scale(i), Scale(j))))))
Corrected == [x |-> RAdd(Ev.pose.x, Ev.corr.x), y |-> RAdd(Ev.pose.y, Ev.corr.y), t |-> RAdd(Ev.pose.t, Ev.corr.t)]
NoCorr == REq(Ev.corr.x, "0") /\ REq(Ev.corr.y, "0") /\ REq(Ev.corr.t, "0")
TMatch ==
  /\ IsEvent("match") /\ UNCHANGED <<g, pts, cells, fresh, has, prm>>
  /\ Must("scan unchanged", Ev.same)
  /\ Must("repeatable", Ev.repeat)
  /\ Must("finite score", RFinite(Ev.v) /\ RLe(Ev.v, "0"))
  /\ Must("finite correction", RFinite(Ev.corr.x) /\ RFinite(Ev.corr.y) /\ RFinite(Ev.corr.t))
  /\ IF ~has THEN Must("no map, no match", REq(Ev.v, "0") /\ NoCorr)
     ELSE LET used == TLCEval(Used(Ev.pts))
              win == TLCEval(Window(used, Ev.pose))
          IN /\ Prop = "S01" =>
                 /\ Must("score of the corrected pose", Close(Ev.v, ScoreAt(Corrected, used)) \/ (REq(Ev.v, "0") /\ NoCorr))
                 /\ Must("correction in the window", NoCorr \/ (OnAxis(Ev.corr.x, prm.lsize, prm.lres) /\ OnAxis(Ev.corr.y, prm.lsize, prm.lres) /\ OnAxis(Ev.corr.t, prm.asize, prm.ares)))
                 /\ Must("nothing better in the window", \A i \in 1..Len(win) : RLe(Ev.v, RAdd(Mean(win[i].w, Len(used)), RMul("2", Tol))))
             /\ Prop = "S02" => /\ Must("sane covariance", CovSane)
                                /\ Must("weighted covariance", IF used = <<>> THEN Uniform(Ev.cov) ELSE CovOk(win))
             /\ Prop = "S03" =>
                 /\ Must("nothing to match", (used = <<>> \/ \A i \in 1..Len(win) : REq(win[i].w, "0")) => REq(Ev.v, "0") /\ NoCorr)
                 /\ Must("evenly chosen beams", used # <<>> /\ (\A i \in 1..Len(win) : ~REq(win[i].w, "0")) => Close(Ev.v, ScoreAt(Corrected, used)))
                 /\ Must("finite covariance", \A i \in 1..9 : RFinite(Ev.cov[i]))
TNext == TNew \/ TAdd \/ TReset \/ TScore \/ TMatch
=============================================================================

------------------------------ MODULE Tr_Filter -----------------------------
(* P01, P02, P05: executions of the real particle filter.  Particles are    *)
(* those of the published pose array, [x, y, z, w] with z, w the half angle.*)
EXTENDS TraceBase, Stat, FiniteSets
CONSTANT Prop
VARIABLES min, max, parts, wts
RPositive(w) == RLt("0", w)
(* KLD bound of Fox: k bins, error and quantile *)
RBound(k, kld) ==
  LET k1 == RInt(k - 1)
      b == RDiv("2", RMul("9", k1))
      c == RAdd(RSub("1", b), RMul(RSqrt(b), kld.z))
      x == RMul(RDiv(k1, RMul("2", kld.err)), RMul(c, RMul(c, c)))
  IN IF RLt("1e9", x) THEN 1000000000 ELSE RTrunc(x)
Th(p) == RMul("2", RAtan2(p[3], p[4]))
RBinOf(p) == <<RFloor(RDiv(p[1], "0.5")), RFloor(RDiv(p[2], "0.5")), RFloor(RDiv(Th(p), "0.2671"))>>
F == INSTANCE Filter WITH Positive <- RPositive, Even <- "1", BinOf <- RBinOf, Bound <- RBound
TInit == min = 1 /\ max = 1 /\ parts = <<>> /\ wts = <<>> /\ l = 1
Origin == <<"0", "0", "0", "1">>
(* F!Resampled, one pass over the draws *)
OnePass(ps, kld) ==
  LET ok == F!Supported
      r == FoldLeft(LAMBDA a, i :
             LET bs == a.bins \cup {RBinOf(ps[i])}
                 k == IF RBinOf(ps[i]) \in a.bins THEN a.k ELSE a.k + 1
             IN [bins |-> bs, k |-> k, sup |-> a.sup /\ ps[i] \in ok, early |-> a.early /\ ~a.enough,
                 enough |-> IF k = a.k THEN i >= a.want \/ i >= max ELSE F!Enough(i, k, kld),
                 want |-> IF k = a.k THEN a.want ELSE F!Wanted(k, kld)],
             [bins |-> {}, k |-> 0, sup |-> TRUE, early |-> TRUE, enough |-> FALSE, want |-> F!Wanted(0, kld)], [i \in 1..Len(ps) |-> i])
  IN TLCEval(r)

(* P02: statistics of the weighted particles *)
Mag == FoldLeft(LAMBDA a, p : RMax(a, RMax(RAbs(p[1]), RAbs(p[2]))), "1", parts')
WSum == FoldLeft(LAMBDA a, w : RAdd(a, w), "0", wts')
WMean(f(_), tot) == RDiv(FoldLeft(LAMBDA a, i : RAdd(a, RMul(wts'[i], f(parts'[i]))), "0", [i \in 1..Len(parts') |-> i]), tot)
Stats ==
  Prop = "P02" =>
  /\ Must("finite statistics", \A i \in 1..3 : RFinite(Ev.mean[i]) /\ \A j \in 1..9 : RFinite(Ev.cov[j]))
  /\ LET tot == TLCEval(WSum)
         mx == TLCEval(WMean(LAMBDA p : p[1], tot))
         my == TLCEval(WMean(LAMBDA p : p[2], tot))
         c == TLCEval(WMean(LAMBDA p : RCos(Th(p)), tot))
         s == TLCEval(WMean(LAMBDA p : RSin(Th(p)), tot))
         t1 == RMul("1e-11", Mag)
         t2 == RMul("1e-11", RMul(Mag, Mag))
         dev(p) == RNorm(RSub(Th(p), Ev.mean[3]))
     IN /\ Must("mean position", RNear(Ev.mean[1], mx, t1) /\ RNear(Ev.mean[2], my, t1))
        /\ Must("circular mean heading", RLt(RHypot(c, s), "1e-6") \/ RAngClose(Ev.mean[3], RAtan2(s, c), RDiv("1e-9", RHypot(c, s))))
        /\ Must("position covariance",
             /\ RNear(Ev.cov[1], WMean(LAMBDA p : RMul(RSub(p[1], mx), RSub(p[1], mx)), tot), t2)
             /\ RNear(Ev.cov[5], WMean(LAMBDA p : RMul(RSub(p[2], my), RSub(p[2], my)), tot), t2)
             /\ RNear(Ev.cov[2], WMean(LAMBDA p : RMul(RSub(p[1], mx), RSub(p[2], my)), tot), t2)
             /\ RNear(Ev.cov[4], Ev.cov[2], t2))
        /\ Must("heading variance", RNear(Ev.cov[9], WMean(LAMBDA p : RMul(dev(p), dev(p)), tot), "1e-9"))
(* all particles weigh the same: the mean says so *)
EvenNow == Must("equal weights", /\ RNear(Ev.mean[1], WMean(LAMBDA p : p[1], RInt(Len(parts'))), RMul("1e-11", Mag))
                                 /\ RNear(Ev.mean[2], WMean(LAMBDA p : p[2], RInt(Len(parts'))), RMul("1e-11", Mag)))
TNew == IsEvent("new") /\ F!Create(Ev.min, Ev.max, Origin) /\ Must("particles", Len(Ev.parts) = Ev.min) /\ Stats
HeadingsNormal(ps) == \A i \in 1..Len(ps) : RNear(RAdd(RMul(ps[i][3], ps[i][3]), RMul(ps[i][4], ps[i][4])), "1", "1e-9") /\ RLe("-1e-9", ps[i][4])
TSpread == /\ IsEvent("spread") /\ Must("number of particles kept", Len(Ev.parts) = Len(parts)) /\ F!Spread(Ev.parts) /\ Stats
           /\ Prop = "P05" =>
                LET xs == [i \in 1..Len(Ev.parts) |-> Ev.parts[i][1]]
                    ys == [i \in 1..Len(Ev.parts) |-> Ev.parts[i][2]]
                    (* relative to the mean heading, so that the seam does not matter *)
                    ts == TLCEval([i \in 1..Len(Ev.parts) |-> RNorm(RSub(Th(Ev.parts[i]), Ev.p.t))])
                IN IF Len(xs) < 100 THEN TRUE ELSE
                   /\ Must("spread in x", Sample(xs, Ev.p.x, Ev.s.x))
                   /\ Must("spread in y", Sample(ys, Ev.p.y, Ev.s.y))
                   /\ Must("spread in heading", Sample(ts, "0", Ev.s.t) \/ RLt("0.5", Ev.s.t))
                   /\ Must("independent", UncorrelatedOk(xs, ys, Ev.p.x, Ev.p.y, Ev.s.x, Ev.s.y) /\ UncorrelatedOk(xs, ts, Ev.p.x, "0", Ev.s.x, Ev.s.t)
                                            /\ UncorrelatedOk(ys, ts, Ev.p.y, "0", Ev.s.y, Ev.s.t))
           /\ Prop = "P05" => EvenNow
           /\ Prop = "P05" => Must("headings normalised", HeadingsNormal(Ev.parts))
TMove == IsEvent("move") /\ Must("number of particles kept", Len(Ev.parts) = Len(parts)) /\ F!Move(Ev.parts) /\ Stats
TMeasure == /\ IsEvent("measure") /\ Must("measuring does not move", Ev.parts = parts) /\ Must("measured with the scan", Ev.ptsok)
            /\ F!Measure([i \in 1..Len(Ev.scores) |-> RAbs(Ev.scores[i])]) /\ Stats
TResample ==
  /\ IsEvent("resample")
  /\ parts' = Ev.parts /\ wts' = F!AllEven(Len(Ev.parts)) /\ UNCHANGED <<min, max>>
  /\ Prop = "P01" =>
       LET r == OnePass(Ev.parts, [err |-> Ev.err, z |-> Ev.z])
       IN /\ Must("supported particles only", r.sup)
          /\ Must("within the limits", Len(Ev.parts) \in min..max)
          /\ Must("goes on until the bound is reached", r.enough)
          /\ Must("stops when the bound is reached", r.early)
          /\ EvenNow
  /\ Stats
(* P01: drawn in proportion to weight; few distinct particles, many draws *)
TProportion ==
  /\ IsEvent("proportion") /\ UNCHANGED <<min, max, parts, wts>>
  /\ LET tot == FoldLeft(LAMBDA a, w : RAdd(a, RAbs(w)), "0", Ev.scores)
         n == Ev.n
     IN \A i \in 1..Len(Ev.scores) :
          LET p == RDiv(RAbs(Ev.scores[i]), tot)
              sd == RSqrt(RMul(RMul(RInt(n), p), RSub("1", p)))
          IN Must("in proportion to weight", RNear(RInt(Ev.counts[i]), RMul(RInt(n), p), RAdd(RMul("6", sd), IF REq(p, "0") THEN "0" ELSE "2")))
  /\ Must("draws are independent", LET pairs == RInt(Ev.n - 1)
                                       tot == FoldLeft(LAMBDA a, w : RAdd(a, RAbs(w)), "0", Ev.scores)
                                       q == FoldLeft(LAMBDA a, w : RAdd(a, RMul(RDiv(RAbs(w), tot), RDiv(RAbs(w), tot))), "0", Ev.scores)
                                   IN RNear(RInt(Ev.repeats), RMul(pairs, q), RAdd("2", RMul("12", RSqrt(RMul(pairs, RMul(q, RAdd("1e-9", RSub("1", q)))))))))
TNext == TNew \/ TSpread \/ TMove \/ TMeasure \/ TResample \/ TProportion
=============================================================================

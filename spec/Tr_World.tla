------------------------------ MODULE Tr_World ------------------------------
(* W01: the whole node with its own scan matcher, driven through a room.     *)
(* What it believes (map to odometry transform, nodes of the saved map,      *)
(* occupancy grid) against the truth.                                        *)
EXTENDS TraceBase, Integers, Sequences, FiniteSets
VARIABLES run,       \* what the scenario is about
          sum,       \* errors so far: of matching, of filtering
          truth, odom, est, last, due, map
RMove(a, d) == Compose(a, d)
RDiff(a, b) == Relative(a, b)
(* how near is near enough: the matcher looks 6 cm and 0.08 around; a room   *)
(* seen through cells of 25 cm does not tell all places apart                *)
TolXY == CASE run.kind = "exact" -> "0.12" [] run.kind = "filter" /\ run.part = 2 -> "0.8" [] OTHER -> "0.8"
TolT == CASE run.kind = "exact" -> "0.08" [] run.kind = "filter" /\ run.part = 2 -> "0.5" [] OTHER -> "0.12"
RealNear(a, b) == RLe(RHypot(RSub(a.x, b.x), RSub(a.y, b.y)), TolXY) /\ RLe(RAbs(RNorm(RSub(a.t, b.t))), TolT)
RSee(p) == p
RFit(m, s, p) == "0"
RWindow(p) == {p}
RBest(m, s, w) == CHOOSE p \in w : TRUE
W == INSTANCE World WITH Move <- RMove, Diff <- RDiff, See <- RSee, Fit <- RFit, Window <- RWindow, Best <- RBest, Near <- RealNear
O == [x |-> "0", y |-> "0", t |-> "0"]
XYT(p) == [x |-> p.x, y |-> p.y, t |-> p.t]
Zero == [n |-> 0, xy |-> "0", t |-> "0"]
TInit == l = 1 /\ run = [kind |-> "none", part |-> 0, walls |-> <<>>] /\ sum = [match |-> Zero, filter |-> Zero] /\ truth = O /\ odom = O /\ est = O /\ last = O /\ due = TRUE /\ map = <<>>
TNew == /\ IsEvent("new") /\ Must("the node before ended", run.part = 0)
        /\ run' = [kind |-> Ev.kind, part |-> 1, walls |-> Ev.walls]
        /\ truth' = O /\ odom' = O /\ est' = O /\ last' = O /\ due' = TRUE /\ map' = <<>> /\ UNCHANGED sum
(* a scan was taken, and everything settled *)
TPose == /\ IsEvent("pose") /\ Must("tells where it is", Ev.tf # <<>>)
         /\ truth' = XYT(Ev.truth) /\ odom' = XYT(Ev.odom) /\ last' = odom' /\ due' = FALSE
         /\ est' = Compose(XYT(Ev.tf[1]), XYT(Ev.odom))
         /\ Must("knows where it is", RealNear(est', truth'))
         /\ LET k == IF run.kind = "filter" /\ run.part = 2 THEN "filter" ELSE "match" IN
            sum' = IF run.kind = "exact" THEN sum ELSE
              [sum EXCEPT ![k] = [n |-> @.n + 1, xy |-> RAdd(@.xy, RHypot(RSub(est'.x, truth'.x), RSub(est'.y, truth'.y))),
                                  t |-> RAdd(@.t, RAbs(RNorm(RSub(est'.t, truth'.t))))]]
         /\ UNCHANGED <<run, map>>
TLost == IsEvent("lost") /\ due' = TRUE /\ run' = [run EXCEPT !.part = 2] /\ UNCHANGED <<sum, truth, odom, est, last, map>>
TFound == IsEvent("found") /\ est' = XYT(Ev.guess) /\ UNCHANGED <<run, sum, truth, odom, last, due, map>>
TMap == /\ IsEvent("map")
        /\ map' = [i \in 1..Len(Ev.nodes) |-> [at |-> XYT(Ev.nodes[i].is), pts |-> <<>>, from |-> XYT(Ev.nodes[i].truth)]]
        /\ Must("a node for every scan of the mapping", Len(Ev.nodes) = Ev.taken)
        /\ Must("the nodes are where the scans were taken", \A i \in 1..Len(map') : RealNear(map'[i].at, map'[i].from))
        /\ UNCHANGED <<run, sum, truth, odom, est, last, due>>
(* ---- the occupancy grid shows the room *)
Off(w, p) ==     \* distance of p from a wall
  LET ex == RSub(w.b.x, w.a.x) ey == RSub(w.b.y, w.a.y)
      k == RDiv(RAdd(RMul(RSub(p.x, w.a.x), ex), RMul(RSub(p.y, w.a.y), ey)), RAdd(RMul(ex, ex), RMul(ey, ey)))
      t == RMax("0", RMin("1", k))
  IN RHypot(RSub(p.x, RAdd(w.a.x, RMul(t, ex))), RSub(p.y, RAdd(w.a.y, RMul(t, ey))))
OffAll(p) == FoldLeft(LAMBDA acc, w : RMin(acc, Off(w, p)), "99", run.walls)
(* the outer walls are the first four, counterclockwise *)
Inside(p) == \A i \in 1..4 : LET w == run.walls[i] IN
  RLe("0", RSub(RMul(RSub(w.b.x, w.a.x), RSub(p.y, w.a.y)), RMul(RSub(w.b.y, w.a.y), RSub(p.x, w.a.x))))
TGrid == /\ IsEvent("grid")
         /\ Must("walls are seen", Ev.nocc >= 50 /\ Ev.nfree >= 200)
         /\ Must("what is occupied are the walls", RLe(RDiv(RSumF(Ev.occ, LAMBDA p : OffAll(p)), RInt(Len(Ev.occ))), "0.3"))
         /\ Must("what is free is inside", 10 * Cardinality({i \in 1..Len(Ev.free) : ~Inside(Ev.free[i]) /\ RLt("0.2", OffAll(Ev.free[i]))}) <= Len(Ev.free))
         /\ UNCHANGED <<run, sum, truth, odom, est, last, due, map>>
TDown == IsEvent("down") /\ run' = [run EXCEPT !.part = 0] /\ UNCHANGED <<sum, truth, odom, est, last, due, map>>
(* on the whole, belief is much nearer than that *)
OnTheWhole(k, xy, t) == sum[k].n < 100 \/ (RLe(sum[k].xy, RMul(xy, RInt(sum[k].n))) /\ RLe(sum[k].t, RMul(t, RInt(sum[k].n))))
TEnd == /\ IsEvent("end") /\ Must("the node ended", run.part = 0)
        /\ Must("on the whole, is where it thinks it is", OnTheWhole("match", "0.08", "0.02"))
        /\ Must("on the whole, the filter is where it thinks it is", OnTheWhole("filter", "0.2", "0.1"))
        /\ UNCHANGED <<run, sum, truth, odom, est, last, due, map>>
TNext == TEnd \/  TNew \/ TPose \/ TLost \/ TFound \/ TMap \/ TGrid \/ TDown
MapIsTrue == W!MapIsTrue
=============================================================================

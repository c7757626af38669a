---------------------------- MODULE Tr_PoseGraph ----------------------------
(* K02 (make), K03, K04 (optimize): the real pose graph code against        *)
(* PoseGraph.  What is optimal is not computed but judged: the logged poses *)
(* must be a stationary point, no worse than the start, that agrees with a  *)
(* fresh optimizer fed at once.                                             *)
EXTENDS TraceBase
CONSTANT Prop
VARIABLES poses, cons, nodes, problem, ret
NotComputed(f, ps, cs) == {ps}
Logged == [i \in 1..Len(Ev.poses) |-> [x |-> Ev.poses[i].x, y |-> Ev.poses[i].y, t |-> Ev.poses[i].t]]
P == INSTANCE PoseGraph WITH Optimal <- NotComputed
XYT(p) == [x |-> p.x, y |-> p.y, t |-> p.t]

(* error of one constraint: r' * information * r, r the deviation of the relative pose *)
Err(c, a, b) ==
  LET d == Relative(a, b)
      r == <<RSub(d.x, c.tr.x), RSub(d.y, c.tr.y), RNorm(RSub(d.t, c.tr.t))>>
      M(i, j) == c.info[(i - 1) * 3 + j]
      row(i) == RAdd(RAdd(RMul(M(i, 1), r[1]), RMul(M(i, 2), r[2])), RMul(M(i, 3), r[3]))
  IN RAdd(RAdd(RMul(r[1], row(1)), RMul(r[2], row(2))), RMul(r[3], row(3)))
Cost(ps, cs) == RSumF(cs, LAMBDA c : Err(c, ps[c.b + 1], ps[c.e + 1]))
Touching(i, cs) == SelectSeq(cs, LAMBDA c : c.b + 1 = i \/ c.e + 1 = i)
Moved(p, k, d) == CASE k = 1 -> [p EXCEPT !.x = RAdd(p.x, d)] [] k = 2 -> [p EXCEPT !.y = RAdd(p.y, d)] [] k = 3 -> [p EXCEPT !.t = RAdd(p.t, d)]
Delta == "0.002"
(* no small move of a single coordinate of a free node improves noticeably *)
Stationary(ps, cs) == LET slack == RAdd("1e-6", RMul("1e-4", Cost(ps, cs))) IN
  \A i \in 2..Len(ps) : \A k \in 1..3 : \A d \in {Delta, RNeg(Delta)} :
    LET tc == Touching(i, cs)
        qs == [ps EXCEPT ![i] = Moved(ps[i], k, d)]
    IN tc = <<>> \/ RLe(Cost(ps, tc), RAdd(Cost(qs, tc), slack))

TInit == P!PGInit /\ l = 1
TNew == IsEvent("new") /\ poses' = <<>> /\ cons' = <<>> /\ nodes' = <<>> /\ problem' = <<>> /\ ret' = <<>>
TScan == IsEvent("scan") /\ P!AddScan(XYT(Ev.p))
TCon == IsEvent("con") /\ P!AddConstraint([b |-> Ev.b, e |-> Ev.to, tr |-> Ev.tr, info |-> Ev.info, bad |-> Ev.bad])
TMove == IsEvent("move") /\ P!MovePose(Ev.i + 1, XYT(Ev.p))
Opt == /\ Ev.ret
       /\ P!OptimizeTo(Logged)
       /\ Len(poses) = Len(poses')
       /\ Prop = "K03" => /\ Must("first pose untouched", PoseBits(poses[1], poses'[1]))
                          /\ Must("only poses change", Ev.same)
                          /\ Must("error not increased", RLe(Cost(poses', cons), RAdd(RMul(Cost(poses, cons), "1.000001"), "1e-9")))
                          /\ Must("unconstrained scans stay", \A i \in 1..Len(poses) : Touching(i, cons) = <<>> => PoseBits(poses[i], poses'[i]))
       /\ Prop = "K04" => /\ Must("stationary", Stationary(poses', cons))
                          /\ Must("like a fresh optimizer", \A i \in 1..Len(poses) : PoseClose(poses'[i], Ev.fresh[i], "2e-3"))
                          /\ Must("consistent constraints are satisfied", Ev.consistent => RLe(Cost(poses', cons), "1e-6"))
OptEmpty == P!OptimizeEmpty /\ Must("fails on an empty graph", ~Ev.ret) /\ Must("only poses change", Ev.same)
OptFail == /\ ~Ev.ret /\ P!OptimizeFails
           /\ Must("usable problems are solved", \E i \in 1..Len(cons) : cons[i].bad)
           /\ Must("failure without effect", Ev.same /\ \A i \in 1..Len(poses) : PoseBits(poses[i], Ev.poses[i]))
TOpt == IsEvent("opt") /\ (OptEmpty \/ OptFail \/ Opt)

(* K02 *)
Id3(i, j) == IF i = j THEN "1" ELSE "0"
Prod(A, B, i, j) == RAdd(RAdd(RMul(A[(i-1)*3+1], B[j]), RMul(A[(i-1)*3+2], B[3+j])), RMul(A[(i-1)*3+3], B[6+j]))
TMake == /\ IsEvent("make")
         /\ Must("ends", Ev.b = Ev.fromid /\ Ev.to = Ev.toid)
         /\ Must("relative pose", PoseClose(Ev.tr, Relative(Ev.from, Ev.dest), "1e-9"))
         /\ Must("inverse covariance", \A i, j \in 1..3 : RNear(Prod(Ev.info, Ev.cov, i, j), Id3(i, j), "1e-7"))
         /\ Must("not switchable", ~Ev.sw)
         /\ Must("scans unchanged", Ev.same)
         /\ UNCHANGED <<poses, cons, nodes, problem, ret>>
TNext == TNew \/ TScan \/ TCon \/ TMove \/ TOpt \/ TMake
ProblemIsGraph == P!ProblemIsGraph
=============================================================================

---------------------------- MODULE MC_PoseGraph ----------------------------
(* One-dimensional lattice instance: poses are integers, a constraint       *)
(* [b, e, d, w] wants pose e - pose b = d with weight w; minima are found   *)
(* by exhaustive search.                                                    *)
EXTENDS PoseGraph, Integers, FiniteSets, TLC, SequencesExt
CONSTANT MaxScans, MaxCons, LatLo, LatHi
LatLow == -1
Lat == LatLo..LatHi
LCost(ps, cs) == FoldLeft(LAMBDA a, c : a + c.w * (ps[c.e] - ps[c.b] - c.d) * (ps[c.e] - ps[c.b] - c.d), 0, cs)
LOptimal(f, ps, cs) ==
  LET free == [1..Len(ps) -> Lat]
      cand == {q \in free : q[1] = f /\ \A i \in 2..Len(ps) : (\A k \in 1..Len(cs) : cs[k].b # i /\ cs[k].e # i) => q[i] = ps[i]}
      best == CHOOSE q \in cand : \A r \in cand : LCost(q, cs) <= LCost(r, cs)
  IN {q \in cand : LCost(q, cs) = LCost(best, cs)}
VARIABLE before
MCInit == PGInit /\ before = <<>>
MCNext ==
  \/ /\ before' = <<>>
     /\ \/ \E p \in 0..1 : Len(poses) < MaxScans /\ AddScan(p)
        \/ \E b, e \in 1..Len(poses), d \in 0..1, w \in {1, 2} : b < e /\ Len(cons) < MaxCons /\ AddConstraint([b |-> b, e |-> e, d |-> d, w |-> w])
        \/ \E i \in 1..Len(poses) : poses[i] # 1 /\ Len(cons) > 0 /\ MovePose(i, 1)
  \/ ret # <<TRUE>> /\ (Optimize \/ OptimizeFails \/ OptimizeEmpty) /\ before' = poses
(* K03 *)
FirstFixed == ret # <<>> /\ poses # <<>> => poses[1] = before[1]
NeverWorse == ret # <<>> => LCost(poses, cons) <= LCost(before, cons)
FailureAtomic == ret = <<FALSE>> => poses = before
(* K04: a call with the whole graph on a fresh optimizer has the same minima as the incremental one *)
Incremental == ret = <<TRUE>> => poses \in LOptimal(before[1], before, cons)
Consistent(q) == LCost(q, cons) = 0
ZeroIfConsistent == ret = <<TRUE>> /\ (\E q \in [1..Len(poses) -> Lat] : q[1] = before[1] /\ Consistent(q)
                      /\ \A i \in 2..Len(poses) : (\A k \in 1..Len(cons) : cons[k].b # i /\ cons[k].e # i) => q[i] = before[i]) => Consistent(poses)
=============================================================================

----------------------------- MODULE PoseGraph ------------------------------
(* A pose graph and its optimizer.  The map owns scans (poses) and          *)
(* constraints; the optimizer keeps its own copy of the poses and an        *)
(* incrementally grown problem: only constraints beyond those it has seen   *)
(* are added in a call.  Arithmetic is a parameter:                         *)
(*   Optimal(fixed, poses, cons): the set of pose sequences the solver may  *)
(*   return when started at poses.                                          *)
EXTENDS Naturals, Sequences
CONSTANTS Optimal(_, _, _)
VARIABLES poses,    \* poses of the map's scans
          cons,     \* constraints of the map
          nodes,    \* the optimizer's copies of poses
          problem,  \* the constraints the optimizer knows
          ret       \* result of the last call: <<>> or <<BOOLEAN>>
gvars == <<poses, cons, nodes, problem, ret>>
PGInit == poses = <<>> /\ cons = <<>> /\ nodes = <<>> /\ problem = <<>> /\ ret = <<>>
AddScan(p) == poses' = Append(poses, p) /\ ret' = <<>> /\ UNCHANGED <<cons, nodes, problem>>
AddConstraint(c) == cons' = Append(cons, c) /\ ret' = <<>> /\ UNCHANGED <<poses, nodes, problem>>
MovePose(i, p) == poses' = [poses EXCEPT ![i] = p] /\ ret' = <<>> /\ UNCHANGED <<cons, nodes, problem>>
OptimizeEmpty == poses = <<>> /\ ret' = <<FALSE>> /\ UNCHANGED <<poses, cons, nodes, problem>>
(* Refresh the copies, extend the problem, solve, write back.               *)
OptimizeTo(q) == /\ poses # <<>>
                 /\ problem' = problem \o SubSeq(cons, Len(problem) + 1, Len(cons))
                 /\ nodes' = q
                 /\ poses' = nodes'
                 /\ ret' = <<TRUE>>
                 /\ UNCHANGED cons
Optimize == poses # <<>> /\ \E q \in Optimal(poses[1], poses, problem \o SubSeq(cons, Len(problem) + 1, Len(cons))) : OptimizeTo(q)
(* An unusable solution changes nothing in the map.                         *)
OptimizeFails == /\ poses # <<>>
                 /\ problem' = problem \o SubSeq(cons, Len(problem) + 1, Len(cons))
                 /\ ret' = <<FALSE>> /\ UNCHANGED <<poses, cons, nodes>>
ProblemIsGraph == ret # <<>> => problem = cons \/ poses = <<>>
=============================================================================

------------------------------ MODULE Matcher -------------------------------
(* Scan matching: a map built from the scans added last, and an exhaustive   *)
(* search of a lattice of offsets around the pose of a scan.  The algorithm  *)
(* visits the offsets one by one, keeping the best and the moments of the    *)
(* scores; what it should return is said separately.                         *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Offsets,            \* the lattice, as a sequence of <<x, y, t>> (integers)
          Score(_, _, _)      \* of a scan at an offset under a map: 0 is no match, less is better
VARIABLES map,      \* <<>> or <<scans>>
          req,      \* <<>> or <<scan>> : a match in progress
          at,       \* number of offsets visited
          best,     \* [score, off]  (off = <<>>: no correction)
          k, u, s   \* weighted second moments, first moments and weights
mvars == <<map, req, at, best, k, u, s>>
NoBest == [score |-> 0, off |-> <<>>]
Zero3 == <<0, 0, 0>>
Zero33 == [i \in 1..3 |-> Zero3]
MInit == map = <<>> /\ req = <<>> /\ at = 0 /\ best = NoBest /\ k = Zero33 /\ u = Zero3 /\ s = 0
AddScans(ss) == req = <<>> /\ map' = (IF ss = <<>> THEN map ELSE <<ss>>) /\ UNCHANGED <<req, at, best, k, u, s>>
Reset == req = <<>> /\ map' = <<>> /\ UNCHANGED <<req, at, best, k, u, s>>
Start(sc) == req = <<>> /\ req' = <<sc>> /\ at' = 0 /\ best' = NoBest /\ k' = Zero33 /\ u' = Zero3 /\ s' = 0 /\ UNCHANGED map
Visit == /\ req # <<>> /\ map # <<>> /\ at < Len(Offsets)
         /\ at' = at + 1
         /\ LET x == Offsets[at + 1]
                v == Score(map[1], req[1], x)
            IN /\ best' = IF v < best.score THEN [score |-> v, off |-> x] ELSE best
               /\ k' = [i \in 1..3 |-> [j \in 1..3 |-> k[i][j] + x[i] * x[j] * v]]
               /\ u' = [i \in 1..3 |-> u[i] + x[i] * v]
               /\ s' = s + v
         /\ UNCHANGED <<map, req>>
Done == req # <<>> /\ (map = <<>> \/ at = Len(Offsets))
Finish == Done /\ req' = <<>> /\ UNCHANGED <<map, at, best, k, u, s>>
-----------------------------------------------------------------------------
Scores == [i \in 1..Len(Offsets) |-> Score(map[1], req[1], Offsets[i])]
(* S01: nothing in the window is better, and the score is that of the pose *)
BestOfWindow == Done /\ map # <<>> =>
  /\ \A i \in 1..Len(Offsets) : best.score <= Scores[i]
  /\ IF best.off = <<>> THEN best.score = 0 ELSE \E i \in 1..Len(Offsets) : Offsets[i] = best.off /\ Scores[i] = best.score
(* S02: s * k - u u' over s * s is the weighted central moment; exactly, over all pairs of offsets *)
Total(f(_)) == FoldLeft(LAMBDA a, i : a + f(i), 0, [i \in 1..Len(Offsets) |-> i])
CentralMoment == Done /\ map # <<>> =>
  \A a, b \in 1..3 :
     2 * (s * k[a][b] - u[a] * u[b])
     = Total(LAMBDA i : Total(LAMBDA j : Scores[i] * Scores[j] * (Offsets[i][a] - Offsets[j][a]) * (Offsets[i][b] - Offsets[j][b])))
SpreadNonNegative == Done => \A a \in 1..3 : s * k[a][a] - u[a] * u[a] >= 0
(* S03 *)
NoMapNoMatch == Done /\ map = <<>> => best = NoBest /\ s = 0
=============================================================================

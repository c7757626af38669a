----------------------------- MODULE MC_Matcher -----------------------------
(* Every assignment of scores {0, -1, -2} to a small window, every history   *)
(* of adding and resetting.                                                  *)
EXTENDS Integers, Sequences, TLC, SequencesExt
CONSTANTS Window     \* the lattice: "plane" or "cube"
VARIABLES map, req, at, best, k, u, s, done
Off == IF Window = "plane" THEN << <<-1, -1, 0>>, <<-1, 0, 1>>, <<0, -1, 0>>, <<0, 0, 1>>, <<1, 0, 0>> >>
       ELSE << <<-1, -1, -1>>, <<-1, 0, -1>>, <<0, -1, -1>>, <<0, 0, -1>>, <<-1, -1, 0>>, <<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 0>> >>
(* a map is a sequence of scans, each a function from offsets (indexes) to scores *)
LScore(m, sc, x) == LET i == CHOOSE j \in 1..Len(Off) : Off[j] = x
                    IN FoldLeft(LAMBDA a, f : a + f[i], 0, m)
M == INSTANCE Matcher WITH Offsets <- Off, Score <- LScore
Scan1 == [1..Len(Off) -> {0, -1, -2}]
Init == M!MInit /\ done = 0
Next == \/ done = 0 /\ done' = 1 /\ (\E f \in Scan1 : M!AddScans(<<f>>))
        \/ done < 3 /\ req = <<>> /\ done' = done + 1 /\
             (M!AddScans(<<>>) \/ M!Reset \/ M!AddScans(<<[i \in 1..Len(Off) |-> -i], [i \in 1..Len(Off) |-> IF i = 2 THEN -5 ELSE 0]>>))
        \/ done < 4 /\ done' = 4 /\ M!Start("scan")
        \/ (M!Visit \/ M!Finish) /\ UNCHANGED done
BestOfWindow == M!BestOfWindow
CentralMoment == M!CentralMoment
SpreadNonNegative == M!SpreadNonNegative
NoMapNoMatch == M!NoMapNoMatch
=============================================================================

------------------------------ MODULE MC_Start ------------------------------
(* Every configuration, and what may happen first.  The same configurations  *)
(* are given to the real node.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT Most
VARIABLES cfg, loc, nodes, laser, seen, made, told, used
S == INSTANCE Start WITH Sensor <- 0
Loaded == 2
Cfgs == [file : BOOLEAN, filter : {"-", "no", "yes"}, mapping : {"-", "no", "yes"}, range : {0, 3}, timeout : {1, 4}, type : {"-", "other"}]
Init == \E c \in Cfgs :
  /\ cfg = c /\ loc = ~c.file /\ nodes = (IF c.file THEN Loaded ELSE 0) /\ laser = FALSE /\ seen = <<>> /\ made = {}
  /\ told = FALSE /\ used = 0
Scan == \E r \in {2, 5}, k \in BOOLEAN, s, e \in {0, 2, 9} :
  /\ S!Scan(r, k, s, e) /\ told' = told
  /\ used' = IF loc /\ laser' /\ s <= cfg.timeout /\ e <= cfg.timeout THEN used + 1 ELSE used
Pose == \E o \in BOOLEAN : S!Pose(o) /\ told' = (told \/ o) /\ used' = used
Next == Scan \/ Pose
vars == <<cfg, loc, nodes, laser, seen, made, told, used>>
Spec == Init /\ [][Next]_vars
Bound == nodes <= Most /\ used <= Most
MatchersRight == S!MatchersRight
BothMatchers == S!BothMatchers
Began == IF cfg.file THEN Loaded ELSE 0
(* only mapping makes a map grow, and it grows by what was used *)
OnlyMapping == S!Mode # "map" => nodes = Began
Grows == S!Mode = "map" => nodes - Began \in {used, used + 1}
(* in a map that was given, nothing is done before somebody said where the robot is *)
LocalizedFirst == cfg.file /\ ~told => nodes = Began /\ used = 0 /\ ~loc
FilterWins == cfg.filter = "yes" => S!Mode = "filter"
DefaultMaps == cfg.filter = "-" /\ cfg.mapping = "-" => S!Mode = "map"
(* once made, the matchers stay as they are *)
Fixed == [][made # {} => made' = made]_vars
NoneLost == [][nodes' >= nodes]_vars
ASSUME "OUT" \in DOMAIN IOEnv =>
  ndJsonSerialize(IOEnv.OUT, SetToSeq({<<m, f, n, fr, t, r, ty, res>> :
    m \in {"none", "file"}, f \in {"-", "no", "yes"}, n \in {"-", "no", "yes"}, fr \in {"-", "own", "near"}, t \in {"short", "long"},
    r \in {"-", "sensor", "less", "more"}, ty \in {"-", "other"}, res \in {"-", "fine", "coarse"}}))
=============================================================================

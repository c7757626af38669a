------------------------------- MODULE Start -------------------------------
(* How the node comes up, and what the configuration makes of its work:      *)
(* which of the three things it does (mapping, localization with the filter, *)
(* localization by scan matching), whether it has to be localized first,     *)
(* what its scan matchers are given, how long it waits for a transform.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sensor      \* the configured range that means: ask the sensor
VARIABLES cfg,        \* [file, filter, mapping, range, timeout, type]; Unset where nothing was configured
          loc,        \* knows where it is
          nodes,      \* of its map
          laser,      \* where the laser is on the robot was found out
          seen,       \* range of the first sensor message, as <<r>>
          made        \* the matchers that exist, [name, type, range]
Unset == "-"
(* documented defaults: mapping, NDT matcher *)
Filter == cfg.filter = "yes"
Mapping == ~Filter /\ cfg.mapping # "no"
Mode == IF Filter THEN "filter" ELSE IF Mapping THEN "map" ELSE "track"
Type == IF cfg.type = Unset THEN "ndt_2d::ScanMatcherNDT" ELSE cfg.type
Range == IF cfg.range # Sensor THEN <<cfg.range>> ELSE seen
Names == {"local_scan_matcher", "global_scan_matcher"}
Up(c, n) == cfg' = c /\ loc' = ~c.file /\ nodes' = n /\ laser' = FALSE /\ seen' = <<>> /\ made' = {}
(* a message of the sensor: s, e are how late its two transforms come *)
First(r) == seen' = IF seen = <<>> \/ ~laser THEN <<r>> ELSE seen
Making(r, known) ==
  IF laser \/ ~known THEN made' = made /\ laser' = laser
  ELSE /\ laser' = TRUE
       /\ made' = {[name |-> n, type |-> Type, range |-> IF cfg.range # Sensor THEN cfg.range ELSE r] : n \in Names}
Ready == loc /\ laser'
InTime(late) == late <= cfg.timeout
Used(r, known, s, e) == First(r) /\ Making(r, known) /\ Ready /\ InTime(s) /\ InTime(e)
Scan(r, known, s, e) ==
  /\ First(r) /\ Making(r, known)
  /\ nodes' = IF Ready /\ InTime(s) /\ InTime(e) /\ Mode = "map" THEN nodes + 1 ELSE nodes
  /\ UNCHANGED <<cfg, loc>>
(* somebody says where the robot is, in the frame of the map or in another *)
Pose(ours) ==
  /\ IF ours /\ ~(Mode = "map" /\ loc)
     THEN loc' = TRUE /\ nodes' = IF Mode = "map" /\ nodes > 0 THEN nodes + 1 ELSE nodes
     ELSE UNCHANGED <<loc, nodes>>
  /\ UNCHANGED <<cfg, laser, seen, made>>
---------------------------------------------------------------------------
MatchersRight == \A m \in made : m.name \in Names /\ m.type = Type /\ <<m.range>> = Range
BothMatchers == laser => {m.name : m \in made} = Names
=============================================================================

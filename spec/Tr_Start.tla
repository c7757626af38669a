------------------------------ MODULE Tr_Start ------------------------------
(* I01: the real node, brought up with every configuration, against Start.   *)
EXTENDS TraceBase, Integers, Sequences, FiniteSets
VARIABLES cfg, loc, nodes, laser, seen, made, run
S == INSTANCE Start WITH Sensor <- "-1"
st == <<cfg, loc, nodes, laser, seen, made>>
(* a transform this much later than the patience is too late; this much earlier is early enough *)
Early(late) == 10 * late <= 9 * cfg.timeout
Late(late) == 10 * late >= 11 * cfg.timeout
(* whatever the node puts out, at any time *)
Out(e, lc) ==
  /\ Must("poses are given in the frame of the map", \A i \in 1..Len(e.clouds) : e.clouds[i].frame = "map")
  /\ Must("the map to odometry transform is between these frames", \A i \in 1..Len(e.tfs) : e.tfs[i].frame = "map" /\ e.tfs[i].child = run.odom)
  /\ Must("the grid is in the frame of the map", \A i \in 1..Len(e.maps) : e.maps[i].frame = "map")
  /\ Must("the grid has the configured resolution", run.rescheck => \A i \in 1..Len(e.maps) : RClose(e.maps[i].res, run.res, "1e-6"))
  /\ Must("who subscribes late gets the map too", \A i \in 1..Len(e.maps) : e.maps[i].kept)
  /\ Must("only the filter has particles", S!Mode # "filter" => e.clouds = <<>>)
  /\ Must("nothing is worth filtering before somebody said where the robot is", cfg.file /\ ~lc => e.clouds = <<>> /\ e.used = <<>>)
(* the matchers made in this step *)
Make(e, r) ==
  LET now == {[name |-> e.made[i].name, type |-> e.made[i].type, range |-> e.made[i].range] : i \in 1..Len(e.made)} IN
  /\ made' = made \cup now
  /\ Must("every matcher is made once", Cardinality(now) = Len(e.made) /\ \A a \in now : \A b \in made : a.name # b.name)
  /\ Must("the matchers have the documented names", \A m \in now : m.name \in S!Names)
  /\ Must("the matchers are of the configured type", \A m \in now : m.type = S!Type)
  /\ Must("the matchers know the range", \A m \in now : RClose(m.range, IF cfg.range # "-1" THEN cfg.range ELSE r, "1e-6"))
TInit == l = 1 /\ run = [on |-> FALSE] /\ cfg = [file |-> FALSE, filter |-> "-", mapping |-> "-", range |-> "-1", timeout |-> 0, type |-> "-"]
         /\ loc = FALSE /\ nodes = 0 /\ laser = FALSE /\ seen = <<>> /\ made = {}
TNew == /\ IsEvent("new") /\ Must("the node before ended", ~run.on)
        /\ run' = [on |-> TRUE, few |-> Ev.few, many |-> Ev.many, odom |-> Ev.odom, res |-> Ev.res, rescheck |-> Ev.rescheck, shown |-> FALSE]
        /\ S!Up([file |-> Ev.cfg[1] = "file", filter |-> Ev.cfg[2], mapping |-> Ev.cfg[3], range |-> Ev.range, timeout |-> Ev.timeout,
                 type |-> IF Ev.cfg[7] = "-" THEN "-" ELSE "ndt_2d_karto::ScanMatcherKarto"], Ev.loaded)
        /\ Must("comes up with the map it was given", Ev.nodes = Ev.loaded)
        /\ Must("says nothing yet", Ev.clouds = <<>> /\ Ev.used = <<>>)
Taken(e, r) == LET far == IF cfg.range # "-1" THEN cfg.range ELSE r IN
  Cardinality({i \in 1..Len(e.ranges) : RLe(e.ranges[i], far)})
TScan ==
  /\ IsEvent("scan")
  /\ S!First(Ev.rmax) /\ laser' = (laser \/ Ev.known)
  /\ Make(Ev, seen'[1]) /\ Out(Ev, loc)
  /\ LET ok == loc /\ laser' /\ Early(Ev.s) /\ Early(Ev.end)
         no == ~loc \/ ~laser' \/ Late(Ev.s) \/ Late(Ev.end)
         done == Ev.used # <<>> \/ Ev.clouds # <<>> \/ Ev.nodes # nodes
     IN
     /\ Must("a scan that cannot be placed leaves no trace", no => ~done)
     /\ Must("waits no longer than configured", Ev.waited <= 3 * cfg.timeout + 1)
     /\ Must("what comes in time is waited for",
          ok => CASE S!Mode = "map" -> Ev.nodes = nodes + 1
                  [] S!Mode = "filter" -> Ev.clouds # <<>>
                  [] S!Mode = "track" -> \E i \in 1..Len(Ev.used) : Ev.used[i].what = "match")
     /\ Must("as many particles as it was configured to keep", cfg.file /\ Ev.clouds # <<>> =>
          LET n == Ev.clouds[Len(Ev.clouds)].n IN run.few <= n /\ n <= run.many)
     /\ Must("only mapping makes the map grow", S!Mode # "map" => Ev.nodes = nodes)
     /\ Must("mapping matches against the scans before", S!Mode = "map" /\ ok /\ nodes > 0 =>
          \E i \in 1..Len(Ev.used) : Ev.used[i].by = "local_scan_matcher" /\ Ev.used[i].what = "match")
     /\ Must("localization matches against the whole map", S!Mode # "map" => \A i \in 1..Len(Ev.used) : Ev.used[i].by = "global_scan_matcher")
     /\ Must("readings beyond the range are not used", \A i \in 1..Len(Ev.used) : Ev.used[i].n = Taken(Ev, seen'[1]))
  /\ nodes' = Ev.nodes /\ UNCHANGED <<cfg, loc, run>>
TPose ==
  /\ IsEvent("pose")
  /\ loc' = (loc \/ Ev.ours)
  /\ Must("a pose that does not count leaves no trace", ~Ev.ours \/ (S!Mode = "map" /\ loc) => Ev.nodes = nodes /\ Ev.clouds = <<>>)
  /\ Must("a pose adds at most one node, and only to a map that is made", Ev.nodes - nodes \in IF S!Mode = "map" THEN {0, 1} ELSE {0})
  /\ Must("the filter shows what it was told", S!Mode = "filter" /\ Ev.ours => Ev.clouds # <<>>)
  /\ Make(Ev, "0") /\ Out(Ev, loc')
  /\ nodes' = Ev.nodes /\ UNCHANGED <<cfg, laser, seen, run>>
(* the threads of the node had their turns *)
TTick ==
  /\ IsEvent("tick")
  /\ Must("nothing happens by itself", Ev.nodes = nodes /\ Ev.clouds = <<>> /\ Ev.made = <<>>)
  /\ Must("shows the map it has", nodes > 0 => run.shown \/ Ev.maps # <<>>)
  /\ Must("tells where odometry started", nodes > 0 /\ loc => Ev.tfs # <<>>)
  /\ Out(Ev, loc)
  /\ run' = [run EXCEPT !.shown = @ \/ Ev.maps # <<>>]
  /\ UNCHANGED st
TDown == IsEvent("down") /\ run' = [on |-> FALSE] /\ UNCHANGED st
TEnd == IsEvent("end") /\ Must("the node ended", ~run.on) /\ UNCHANGED <<st, run>>
TNext == TNew \/ TScan \/ TPose \/ TTick \/ TDown \/ TEnd
=============================================================================

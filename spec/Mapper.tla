------------------------------- MODULE Mapper -------------------------------
(* The node: the thread that answers scans, initial poses and requests      *)
(* (main), loop closure (lc), the publisher (pub); steps end where a thread *)
(* takes or gives back a lock or touches something shared.  Poses live on   *)
(* the integer lattice with quarter turns; what a match or an optimisation  *)
(* returns is left to chance.  Slips names steps done wrong on purpose, to  *)
(* see that the properties notice (MC_Mapper_slip).                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Depth, Limit, OptLimit, Size2, Near2,   \* parameters (distances squared)
          PF, Enabled0, FromFile,                 \* particle filter, mapping at first, started with a map
          Kinds, ScanKinds, MaxScans, MaxInputs, Corrs,      \* bounds
          Runs,                                   \* threads besides main: lc, pub
  Slips
VARIABLES
  gs,    \* every map the node had: [scans, cons]; a scan [p, e, how]: pose, without points, made from
  cur,   \* the current one
  disk,  \* the saved map
  en, loc, stale, upd, ok,     \* mapping enabled, localized, matcher without the current map, map changed, not stopped
  trk,   \* tracked pair
  od,    \* the robot's odometry pose
  gm,    \* what the global matcher holds: <<>> before it exists, else [gid, what]: scans as [i, p]
  lk,    \* owners of the locks g(raph), m(atcher), p(ose)
  mn, lc, pb,
  nin,   \* inputs so far
  gh     \* what the properties talk about
vars == <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, gm, lk, mn, lc, pb, nin, gh>>
-----------------------------------------------------------------------------
Turn(t, x, y) == CASE t = 0 -> <<x, y>> [] t = 1 -> <<-y, x>> [] t = 2 -> <<-x, -y>> [] OTHER -> <<y, -x>>
ICompose(a, b) == LET v == Turn(a.t, b.x, b.y) IN [x |-> a.x + v[1], y |-> a.y + v[2], t |-> (a.t + b.t) % 4]
IInv(a) == LET k == (4 - a.t) % 4
               v == Turn(k, -a.x, -a.y) IN [x |-> v[1], y |-> v[2], t |-> k]
IRelative(a, b) == ICompose(IInv(a), b)
Add(p, c) == [x |-> p.x + c.x, y |-> p.y + c.y, t |-> (p.t + c.t) % 4]
P0 == [x |-> 0, y |-> 0, t |-> 0]
D2(a, b) == (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)
M == INSTANCE Mapping WITH Compose <- ICompose, Relative <- IRelative
Map == gs[cur]
N == Len(Map.scans)
Slip(s) == s \in Slips
Scan(p, e, how) == [p |-> p, e |-> e, how |-> how]
Tie(b, to, tr, sw) == [b |-> b, to |-> to, tr |-> tr, sw |-> sw]
FileMap == [scans |-> <<Scan(P0, FALSE, "file"), Scan([x |-> 1, y |-> 0, t |-> 0], FALSE, "file")>>,
            cons |-> <<Tie(0, 1, [x |-> 1, y |-> 0, t |-> 0], FALSE)>>]
NewMap == [scans |-> <<>>, cons |-> <<>>]
Content(g, S) == [gid |-> g, what |-> [k \in 1..Len(S) |-> [i |-> S[k], p |-> gs[g].scans[S[k] + 1].p]]]
Upto(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]      \* a .. b as a sequence
(* scans before `limit` closer than d2, nearest first *)
NearList(m, p, limit, d2) ==
  LET in == {i \in 0..(limit - 1) : D2(m.scans[i + 1].p, p) < d2}
      before(i, j) == LET a == D2(m.scans[i + 1].p, p)
                          b == D2(m.scans[j + 1].p, p) IN a < b \/ (a = b /\ i < j)
  IN SetToSortSeq(in, before)
Cand(m, q) == IF M!Before(q, Depth) <= 0 THEN <<>> ELSE NearList(m, m.scans[q + 1].p, M!Before(q, Depth), Size2)
Free(x) == lk[x] = "-"
Take(x, t) == lk' = [lk EXCEPT ![x] = t]
Idle == [pc |-> "idle"]
-----------------------------------------------------------------------------
Init ==
  /\ gs = <<IF FromFile THEN FileMap ELSE NewMap>> /\ cur = 1 /\ disk = <<>>
  /\ en = (Enabled0 /\ ~PF) /\ loc = ~FromFile /\ stale = TRUE /\ upd = FromFile /\ ok = TRUE
  /\ trk = [r |-> P0, o |-> P0] /\ od = P0 /\ gm = <<>> /\ lk = [g |-> "-", m |-> "-", p |-> "-"]
  /\ mn = Idle
  /\ lc = [pc |-> "sleep", g |-> 1, next |-> 0, last |-> 0, num |-> 0, newm |-> FALSE, list |-> <<>>, i |-> 1, tried |-> 0, cor |-> P0]
  /\ pb = [pc |-> "sleep", pairs |-> {}, seen |-> {}]
  /\ nin = 0
  /\ gh = [frozen |-> <<>>, grid |-> <<>>, graph |-> <<>>, badpub |-> FALSE, badtf |-> FALSE, badmatch |-> FALSE, badplace |-> FALSE, exam |-> <<>>, tries |-> <<>>]
(* the map changes to m2: the publisher may show it from now on *)
SetMap(m2) == /\ gs' = [gs EXCEPT ![cur] = m2]
              /\ pb' = [pb EXCEPT !.seen = @ \cup {m2}]
-----------------------------------------------------------------------------
(* ---- main ---- *)
Goto(pc) == mn' = [mn EXCEPT !.pc = pc]
MainScan(move, e, usable) ==
  /\ mn.pc = "idle" /\ ok /\ nin < MaxInputs /\ "scan" \in Kinds
  /\ od' = ICompose(od, move) /\ nin' = nin + 1
  /\ mn' = [pc |-> "laser", e |-> e, usable |-> usable, o |-> od', r |-> P0, c |-> P0, tie |-> <<>>, pre |-> <<Map, trk>>]
  /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, gm, lk, lc, pb, gh>>
MainLaser == /\ mn.pc = "laser"
             /\ IF gm = <<>> THEN Free("m") /\ gm' = [gid |-> 0, what |-> <<>>] ELSE UNCHANGED gm
             /\ Goto("decide")
             /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, lk, lc, pb, nin, gh>>
Far == D2(mn.o, trk.o) >= 1 \/ mn.o.t # trk.o.t
Decision == M!ScanOutcome(mn.usable, loc, N = 0, Far, PF, en)
MainDecide ==
  /\ mn.pc = "decide"
  /\ LET pred == IF N = 0 THEN P0 ELSE M!Predict(trk, mn.o)
     IN mn' = CASE Decision = "none" -> Idle
                [] Decision = "map" /\ N = MaxScans -> Idle
                [] Decision = "map" /\ N < MaxScans -> [mn EXCEPT !.pc = IF N = 0 THEN "append" ELSE "window", !.r = pred]
                [] OTHER -> [mn EXCEPT !.pc = "lm", !.r = pred]
  /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, gm, lk, lc, pb, nin, gh>>
(* mapping: the local matcher is filled, the match done, the tie made, the scan appended *)
MainWindow == /\ mn.pc = "window" /\ Free("g")
              /\ \E c \in Corrs : mn' = [mn EXCEPT !.pc = "tie", !.r = Add(mn.r, c)]
              /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, gm, lk, lc, pb, nin, gh>>
MainTie == /\ mn.pc = "tie" /\ Free("g")
           /\ mn' = [mn EXCEPT !.pc = "append", !.tie = <<Tie(N - 1, N, IRelative(Map.scans[N].p, mn.r), FALSE)>>]
           /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, gm, lk, lc, pb, nin, gh>>
MainAppend == /\ mn.pc = "append" /\ Free("g")
              /\ IF Slip("tie apart") /\ mn.tie # <<>>
                 THEN SetMap([Map EXCEPT !.cons = @ \o mn.tie]) /\ mn' = [mn EXCEPT !.tie = <<>>]
                 ELSE SetMap([Map EXCEPT !.scans = Append(@, Scan(mn.r, mn.e, IF N = 0 THEN "first" ELSE "scan")), !.cons = @ \o mn.tie]) /\ Goto("track")
              /\ UNCHANGED <<cur, disk, en, loc, stale, upd, ok, trk, od, gm, lk, lc, nin, gh>>
Track(pair) == trk' = pair /\ pb' = [pb EXCEPT !.pairs = @ \cup {pair}]
MainTrack == /\ mn.pc = "track" /\ Free("p")
             /\ IF Slip("track corrected later") THEN Track([r |-> Map.scans[N].p, o |-> mn.o]) ELSE Track([r |-> mn.r, o |-> mn.o])
             /\ upd' = TRUE /\ mn' = Idle /\ gh' = [gh EXCEPT !.badplace = @ \/ trk'.r # mn.r]
             /\ UNCHANGED <<gs, cur, disk, en, loc, stale, ok, od, gm, lk, lc, nin>>
(* localizing, also with the filter: the global matcher holds the current map *)
MainLm == /\ mn.pc = "lm" /\ Free("m")
          /\ Take("m", "main") /\ Goto(IF stale THEN "lg" ELSE "lmatch")
          /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, gm, lc, pb, nin, gh>>
MainLg == /\ mn.pc = "lg" /\ Free("g")
          /\ Take("g", "main") /\ Goto("lbuild")
          /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, gm, lc, pb, nin, gh>>
MainBuild == /\ mn.pc = "lbuild"
             /\ gm' = Content(cur, Upto(0, N - 1)) /\ stale' = FALSE
             /\ lk' = [lk EXCEPT !["g"] = "-"] /\ Goto("lmatch")
             /\ UNCHANGED <<gs, cur, disk, en, loc, upd, ok, trk, od, lc, pb, nin, gh>>
MainMatch == /\ mn.pc = "lmatch"
             /\ lk' = [lk EXCEPT !["m"] = "-"]
             /\ \E c \in Corrs : mn' = [mn EXCEPT !.pc = "ltrack", !.r = Add(mn.r, c)]
             /\ gh' = [gh EXCEPT !.badmatch = @ \/ gm # Content(cur, Upto(0, N - 1))]
             /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, gm, lc, pb, nin>>
MainLtrack == /\ mn.pc = "ltrack" /\ Free("p")
              /\ Track([r |-> mn.r, o |-> mn.o]) /\ mn' = Idle
              /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, od, gm, lk, lc, nin, gh>>
(* ---- initial poses ---- *)
MainPose(p, usable) ==
  /\ mn.pc = "idle" /\ ok /\ nin < MaxInputs /\ "pose" \in Kinds
  /\ nin' = nin + 1 /\ mn' = [pc |-> "pose", r |-> p, usable |-> usable, o |-> od]
  /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, gm, lk, lc, pb, gh>>
NearestTo(p) == NearList(Map, p, N, Near2)
PoseDecision == M!PoseOutcome(mn.usable, loc, TRUE, PF, en)
MainPoseDecide ==
  /\ mn.pc = "pose"
  /\ mn' = CASE PoseDecision = "none" -> Idle
             [] PoseDecision = "node" -> IF N = MaxScans THEN Idle ELSE [mn EXCEPT !.pc = "node"]
             [] OTHER -> [mn EXCEPT !.pc = "ptrack"]
  /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, gm, lk, lc, pb, nin, gh>>
MainNode ==
  /\ mn.pc = "node" /\ Free("g")
  /\ IF NearestTo(mn.r) = <<>> THEN mn' = Idle /\ UNCHANGED <<gs, upd, pb>>
     ELSE LET b == Head(NearestTo(mn.r))
          IN /\ SetMap([scans |-> Append(Map.scans, Scan(mn.r, TRUE, "pose")),
                        cons |-> Append(Map.cons, Tie(b, N, IRelative(Map.scans[b + 1].p, mn.r), FALSE))])
             /\ upd' = IF Slip("pose unpublished") THEN upd ELSE TRUE
             /\ Goto("ptrack")
  /\ UNCHANGED <<cur, disk, en, loc, stale, ok, trk, od, gm, lk, lc, nin, gh>>
MainPtrack == /\ mn.pc = "ptrack" /\ Free("p")
              /\ Track([r |-> mn.r, o |-> mn.o]) /\ loc' = TRUE /\ mn' = Idle
              /\ UNCHANGED <<gs, cur, disk, en, stale, upd, ok, od, gm, lk, lc, nin, gh>>
(* ---- requests ---- *)
MainCfg(enable, disable, op) ==
  /\ mn.pc = "idle" /\ ok /\ nin < MaxInputs
  /\ nin' = nin + 1 /\ mn' = [pc |-> "cfg", enable |-> enable, disable |-> disable, op |-> op]
  /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, gm, lk, lc, pb, gh>>
MainCfg1 ==
  /\ mn.pc = "cfg"
  /\ IF M!Disables(mn, PF)
     THEN /\ (Free("g") \/ Slip("disable without lock"))
          /\ en' = FALSE /\ loc' = FALSE /\ UNCHANGED <<stale, gh>>
     ELSE /\ en' = M!EnabledAfter(en, mn, PF)
          /\ stale' = (stale \/ (en' /\ mn.enable /\ ~Slip("enable keeps matcher")))
          /\ gh' = [gh EXCEPT !.frozen = IF mn.enable THEN <<>> ELSE @]
          /\ UNCHANGED loc
  /\ Goto("op")
  /\ UNCHANGED <<gs, cur, disk, upd, ok, trk, od, gm, lk, lc, pb, nin>>
MainOp ==
  /\ mn.pc = "op" /\ (mn.op \in {"none", "bad"} \/ Free("g"))
  /\ CASE mn.op = "load" ->
            LET m2 == IF disk = <<>> THEN FileMap ELSE disk[1]
            IN /\ gs' = Append(gs, m2) /\ cur' = Len(gs) + 1 /\ upd' = TRUE /\ loc' = FALSE /\ stale' = (stale \/ ~Slip("load keeps matcher"))
               /\ pb' = [pb EXCEPT !.seen = @ \cup {m2}] /\ gh' = [gh EXCEPT !.frozen = <<>>, !.exam = <<>>, !.tries = <<>>] /\ UNCHANGED disk
       [] mn.op = "save" -> disk' = <<Map>> /\ UNCHANGED <<gs, cur, upd, loc, stale, pb, gh>>
       [] OTHER -> UNCHANGED <<gs, cur, upd, loc, stale, disk, pb, gh>>
  /\ Goto("answer")
  /\ UNCHANGED <<en, ok, trk, od, gm, lk, lc, nin>>
MainAnswer == /\ mn.pc = "answer"
              /\ gh' = [gh EXCEPT !.frozen = IF en THEN <<>> ELSE IF @ = <<>> THEN <<Map>> ELSE @]
              /\ mn' = Idle
              /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, ok, trk, od, gm, lk, lc, pb, nin>>
MainStop == /\ mn.pc = "idle" /\ ok /\ "stop" \in Kinds /\ ok' = FALSE
            /\ UNCHANGED <<gs, cur, disk, en, loc, stale, upd, trk, od, gm, lk, mn, lc, pb, nin, gh>>
MainBusy == MainLaser \/ MainDecide \/ MainWindow \/ MainTie \/ MainAppend \/ MainTrack \/ MainLm \/ MainLg \/ MainBuild \/ MainMatch \/ MainLtrack
            \/ MainPoseDecide \/ MainNode \/ MainPtrack \/ MainCfg1 \/ MainOp \/ MainAnswer
-----------------------------------------------------------------------------
(* ---- loop closure ---- *)
LUnch == UNCHANGED <<cur, disk, en, loc, stale, ok, trk, od, mn, nin>>
LcGo(pc) == lc' = [lc EXCEPT !.pc = pc]
LcWake == /\ lc.pc = "sleep" /\ LcGo(IF ~ok THEN "exit" ELSE IF en THEN "made" ELSE "sleep") /\ lc' # lc
          /\ LUnch /\ UNCHANGED <<gs, upd, gm, lk, pb, gh>>
LcMade == /\ lc.pc = "made" /\ Free("m") /\ LcGo(IF gm = <<>> THEN "sleep" ELSE "grab")
          /\ LUnch /\ UNCHANGED <<gs, upd, gm, lk, pb, gh>>
Larger(a, b) == IF a > b THEN a ELSE b
LcGrab == /\ lc.pc = "grab" /\ Free("g")
          /\ LET new == cur # lc.g /\ ~Slip("progress survives load")
                 next == Larger(IF new THEN 0 ELSE lc.next, M!FirstExamined(Depth))
             IN lc' = [lc EXCEPT !.pc = IF N <= Depth THEN "sleep" ELSE "next", !.g = cur, !.num = N, !.newm = FALSE,
                                 !.next = IF N <= Depth THEN (IF new THEN 0 ELSE @) ELSE next, !.last = IF new THEN 0 ELSE @]
          /\ LUnch /\ UNCHANGED <<gs, upd, gm, lk, pb, gh>>
LcNext == /\ lc.pc = "next" /\ LcGo(IF lc.next < lc.num /\ en THEN "list" ELSE "opt")
          /\ LUnch /\ UNCHANGED <<gs, upd, gm, lk, pb, gh>>
LcList == /\ lc.pc = "list" /\ Free("g")
          /\ IF lc.g # cur THEN LcGo("opt") /\ UNCHANGED gh
             ELSE /\ lc' = [lc EXCEPT !.pc = "cand", !.list = Cand(Map, lc.next), !.i = 1, !.tried = 0]
                  /\ gh' = [gh EXCEPT !.exam = Append(@, lc.next), !.tries = <<>>]
          /\ LUnch /\ UNCHANGED <<gs, upd, gm, lk, pb>>
(* the scan is done: the next *)
LcDone == lc' = [lc EXCEPT !.pc = "next", !.next = @ + 1]
LcCand == /\ lc.pc = "cand"
          /\ IF lc.i > Len(lc.list) \/ (lc.tried >= Limit /\ ~Slip("limit after"))
             THEN LcDone /\ UNCHANGED lk
             ELSE IF Slip("no matcher lock") THEN LcGo("cen") /\ UNCHANGED lk ELSE Free("m") /\ Take("m", "lc") /\ LcGo("cen")
          /\ LUnch /\ UNCHANGED <<gs, upd, gm, pb, gh>>
Drop == [x \in DOMAIN lk |-> IF lk[x] = "lc" THEN "-" ELSE lk[x]]
LcCen == /\ lc.pc = "cen"
         /\ IF ~en /\ ~Slip("no recheck") THEN lk' = Drop /\ LcDone ELSE UNCHANGED lk /\ LcGo("cg")
         /\ LUnch /\ UNCHANGED <<gs, upd, gm, pb, gh>>
LcCg == /\ lc.pc = "cg" /\ Free("g") /\ Take("g", "lc") /\ LcGo("cbuild")
        /\ LUnch /\ UNCHANGED <<gs, upd, gm, pb, gh>>
Region(i) == IF i = 0 THEN <<0>> ELSE IF i < M!Before(lc.next, Depth) THEN <<i - 1, i>> ELSE <<i - 1>>
LcBuild == /\ lc.pc = "cbuild"
           /\ LET i == lc.list[lc.i]
                  m == gs[lc.g]
              IN IF lc.g # cur THEN lk' = Drop /\ LcDone /\ UNCHANGED gm
                 ELSE IF m.scans[i + 1].e THEN lk' = Drop /\ lc' = [lc EXCEPT !.pc = "cand", !.i = @ + 1] /\ UNCHANGED gm
                 ELSE lk' = [lk EXCEPT !["g"] = "-"] /\ gm' = Content(cur, Region(i)) /\ LcGo("cmatch")
           /\ LUnch /\ UNCHANGED <<gs, upd, pb, gh>>
LcMatch == /\ lc.pc = "cmatch"
           /\ \E c \in Corrs, better \in BOOLEAN : lc' = [lc EXCEPT !.pc = IF better THEN "cadd" ELSE "crej", !.cor = IF better THEN c ELSE P0]
           /\ gh' = [gh EXCEPT !.tries = IF lc.g = cur THEN Append(@, lc.list[lc.i]) ELSE @, !.badmatch = @ \/ gm.gid # lc.g]
           /\ LUnch /\ UNCHANGED <<gs, upd, gm, lk, pb>>
LcAdd == /\ lc.pc \in {"cadd", "crej"} /\ Free("g")
         /\ IF (~en /\ ~Slip("no recheck")) \/ (lc.g # cur /\ ~Slip("old map closed")) THEN lk' = Drop /\ LcDone
            ELSE Take("g", "lc") /\ LcGo(IF lc.pc = "cadd" THEN "cput" ELSE "cno")
         /\ LUnch /\ UNCHANGED <<gs, upd, pb, gm, gh>>
LcPut == /\ lc.pc \in {"cput", "cno"}
         /\ lk' = Drop
         /\ lc' = [lc EXCEPT !.pc = "cand", !.i = @ + 1, !.tried = @ + 1, !.newm = @ \/ lc.pc = "cput"]
         /\ IF lc.pc = "cno" \/ lc.next >= N THEN UNCHANGED <<gs, upd, pb>>
            ELSE LET q == lc.next
                     c == lc.list[lc.i]
                     p2 == Add(Map.scans[q + 1].p, lc.cor)
                 IN /\ SetMap([scans |-> [Map.scans EXCEPT ![q + 1].p = p2],
                               cons |-> Append(Map.cons, Tie(c, q, IRelative(Map.scans[c + 1].p, p2), TRUE))])
                    /\ upd' = TRUE
         /\ LUnch /\ UNCHANGED <<gm, gh>>
LcOpt == /\ lc.pc = "opt"
         /\ IF ~M!WantsOptimize(IF lc.newm THEN 1 ELSE 0, lc.num, lc.last, OptLimit) THEN LcGo("sleep")
            ELSE LcGo("opt2")
         /\ LUnch /\ UNCHANGED <<gs, upd, gm, lk, pb, gh>>
(* only poses change, and not the first *)
Shift(S, c) == [i \in 1..Len(S) |-> IF i = Len(S) THEN [S[i] EXCEPT !.p = Add(@, c)] ELSE S[i]]
LcOpt2 == /\ lc.pc = "opt2" /\ Free("g")
          /\ IF (~en /\ ~Slip("optimise disabled")) \/ lc.g # cur THEN LcGo("sleep") /\ UNCHANGED lk
             ELSE LcGo("opt3") /\ Take("g", "lc")
          /\ LUnch /\ UNCHANGED <<gs, upd, pb, gm, gh>>
LcOpt3 == /\ lc.pc = "opt3"
          /\ \E c \in Corrs : SetMap([Map EXCEPT !.scans = Shift(@, c)])
          /\ upd' = TRUE /\ lc' = [lc EXCEPT !.pc = "sleep", !.last = N] /\ lk' = Drop
          /\ LUnch /\ UNCHANGED <<gm, gh>>
LcStep == LcWake \/ LcMade \/ LcGrab \/ LcNext \/ LcList \/ LcCand \/ LcCen \/ LcCg \/ LcBuild \/ LcMatch \/ LcAdd \/ LcPut \/ LcOpt \/ LcOpt2 \/ LcOpt3
-----------------------------------------------------------------------------
(* ---- the publisher ---- *)
PUnch == UNCHANGED <<gs, cur, disk, en, loc, stale, ok, trk, od, gm, lk, mn, lc, nin>>
PubWake == /\ pb.pc = "sleep"
           /\ pb' = [pc |-> IF ~ok THEN "exit" ELSE IF upd THEN "grid" ELSE "have", pairs |-> {trk}, seen |-> {Map}]
           /\ upd' = FALSE /\ PUnch /\ UNCHANGED gh
PubGrid == /\ pb.pc = "grid" /\ Free("g")
           /\ pb' = [pb EXCEPT !.pc = "graph"]
           /\ gh' = [gh EXCEPT !.grid = <<Map>>, !.badpub = @ \/ Map \notin pb.seen]
           /\ PUnch /\ UNCHANGED upd
PubGraph == /\ pb.pc = "graph" /\ Free("g")
            /\ pb' = [pb EXCEPT !.pc = "have"]
            /\ gh' = [gh EXCEPT !.graph = <<Map>>, !.badpub = @ \/ Map \notin pb.seen]
            /\ upd' = IF Slip("flag cleared after") THEN FALSE ELSE upd
            /\ PUnch
PubHave == /\ pb.pc = "have" /\ Free("g")
           /\ pb' = [pb EXCEPT !.pc = IF N = 0 THEN "sleep" ELSE "tf"]
           /\ PUnch /\ UNCHANGED <<upd, gh>>
PubTf == /\ pb.pc = "tf" /\ Free("p")
         /\ LET half == "r" \in DOMAIN pb
            IN IF Slip("torn read") /\ ~half
               THEN pb' = [pc |-> "tf", pairs |-> pb.pairs, seen |-> pb.seen, r |-> trk.r] /\ UNCHANGED gh
               ELSE LET pair == [r |-> IF half THEN pb.r ELSE trk.r, o |-> trk.o]
                    IN /\ pb' = [pc |-> "sleep", pairs |-> pb.pairs, seen |-> pb.seen]
                       /\ gh' = [gh EXCEPT !.badtf = @ \/ M!MapToOdom(pair) \notin {M!MapToOdom(x) : x \in pb.pairs}]
         /\ PUnch /\ UNCHANGED upd
PubStep == PubWake \/ PubGrid \/ PubGraph \/ PubHave \/ PubTf
-----------------------------------------------------------------------------
Fwd == [x |-> 1, y |-> 0, t |-> 0]
InitialPoses == {[x |-> 1, y |-> 0, t |-> 0], [x |-> 9, y |-> 0, t |-> 0]}
Input == \/ \E s \in ScanKinds : MainScan(s.move, s.e, s.usable)
         \/ \E p \in InitialPoses, usable \in BOOLEAN : (~usable => p.x = 1) /\ MainPose(p, usable)
         \/ \E a \in {<<TRUE, FALSE>>, <<FALSE, TRUE>>, <<FALSE, FALSE>>}, op \in {"none", "load", "save"} :
              (a = <<FALSE, FALSE>> <=> op # "none") /\ (op = "load" => Len(gs) < 2)
              /\ (IF a[1] THEN "enable" ELSE IF a[2] THEN "disable" ELSE op) \in Kinds /\ MainCfg(a[1], a[2], op)
         \/ MainStop
(* steps nobody else notices go first (they commute with everything others do) *)
MainQuiet == mn.pc \in {"decide", "pose"} \/ (mn.pc = "laser" /\ gm # <<>>)
LcQuiet == lc.pc = "opt" \/ (lc.pc = "cand" /\ (lc.i > Len(lc.list) \/ (lc.tried >= Limit /\ ~Slip("limit after"))))
Next == IF MainQuiet THEN MainBusy ELSE IF LcQuiet THEN LcStep ELSE Input \/ MainBusy \/ ("lc" \in Runs /\ LcStep) \/ ("pub" \in Runs /\ PubStep)
Spec == Init /\ [][Next]_vars /\ WF_vars(MainBusy) /\ WF_vars(LcStep) /\ WF_vars(PubStep)
-----------------------------------------------------------------------------
(* ==== properties ==== *)
Hows(m) == [i \in 1..Len(m.scans) |-> m.scans[i].how]
M01_WellFormed == \A g \in 1..Len(gs) : M!WellFormed(Len(gs[g].scans), Hows(gs[g]), gs[g].cons)
M01_Published == \A s \in {gh.grid, gh.graph, disk} : s # <<>> => M!WellFormed(Len(s[1].scans), Hows(s[1]), s[1].cons)
M03_Frozen == gh.frozen # <<>> /\ mn.pc # "op" /\ mn.pc # "answer" => Map = gh.frozen[1]
M04_NotLocalized == ~loc => mn.pc \notin {"window", "tie", "append", "track", "lm", "lg", "lbuild", "lmatch", "ltrack"}
M05_Snapshots == ~gh.badpub
Quiet == mn.pc = "idle" /\ nin = MaxInputs
M05_Shown == "pub" \in Runs /\ pb.pc = "sleep" /\ ~upd /\ mn.pc = "idle" /\ (N > 0 \/ Len(gs) > 1) => gh.grid = <<Map>> /\ gh.graph = <<Map>>
M06_OnePair == ~gh.badtf
M07_WholeMap == ~gh.badmatch
M07_Placed == ~gh.badplace
M08_InOrder == /\ \A k \in 1..Len(gh.exam) : gh.exam[k] = Depth + k
               /\ Len(gh.tries) <= Limit
               /\ \A k \in 1..Len(gh.tries) : gh.tries[k] <= Larger(gh.exam[Len(gh.exam)] - Depth - 1, -1)
M08_None == lc.pc = "sleep" /\ lc.g = cur /\ lc.next > M!FirstExamined(Depth) /\ gh.exam # <<>> => gh.exam[Len(gh.exam)] = lc.next - 1
M09_Once == cur = 1 => \A k \in 1..Len(Map.cons) : Map.cons[k].sw =>
               /\ Map.cons[k].b < Map.cons[k].to - Depth
               /\ Cardinality({j \in 1..Len(Map.cons) : Map.cons[j].sw /\ Map.cons[j].b = Map.cons[k].b /\ Map.cons[j].to = Map.cons[k].to}) = 1
M10_OldMapIsGone == [][lc.pc \in {"cput", "opt3"} /\ lc.g # cur /\ lc' # lc => gs' = gs]_<<gs, lc>>
M10_Untouched == [][\A g \in 1..Len(gs) : g # cur' => gs'[g] = gs[g]]_gs
M02_OnlyThen == [][(N' > N /\ cur' = cur) => (mn.pc \in {"append", "node"}) /\ N' = N + 1]_<<gs, cur>>
(* locks: nobody waits in a circle, and nobody touches what another writes *)
Waits(t) == CASE t = "main" /\ mn.pc \in {"window", "tie", "append", "lg", "node"} -> "g"
              [] t = "main" /\ mn.pc = "cfg" -> IF M!Disables(mn, PF) THEN "g" ELSE "-"
              [] t = "main" /\ mn.pc = "op" -> IF mn.op \in {"load", "save"} THEN "g" ELSE "-"
              [] t = "main" /\ mn.pc \in {"lm"} -> "m"
              [] t = "main" /\ mn.pc = "laser" -> IF gm = <<>> THEN "m" ELSE "-"
              [] t = "main" /\ mn.pc \in {"track", "ltrack", "ptrack"} -> "p"
              [] t = "lc" /\ lc.pc \in {"grab", "list", "cg", "cadd", "crej", "opt2"} -> "g"
              [] t = "lc" /\ lc.pc \in {"made", "cand"} -> "m"
              [] t = "pub" /\ pb.pc \in {"grid", "graph", "have"} -> "g"
              [] t = "pub" /\ pb.pc = "tf" -> "p"
              [] OTHER -> "-"
Threads == {"main", "lc", "pub"}
On(t) == IF Waits(t) = "-" \/ lk[Waits(t)] = "-" THEN "-" ELSE lk[Waits(t)]
M11_NoDeadlock == \A t \in Threads : On(t) # "-" => On(t) # t /\ (On(On(t)) # "-" => On(On(t)) \notin {t, On(t)})
(* what the next step of a thread reads and writes outside of atomics *)
Acc(v, w) == [v |-> v, w |-> w]
Touch(t) ==
  CASE t = "main" /\ mn.pc \in {"window", "tie"} -> {Acc("scans", FALSE), Acc("poses", FALSE)}
    [] t = "main" /\ mn.pc \in {"append", "node"} -> {Acc("scans", TRUE), Acc("poses", TRUE), Acc("cons", TRUE)}
    [] t = "main" /\ mn.pc = "decide" -> {Acc("scans", FALSE), Acc("pair", FALSE), Acc("pointer", FALSE)}
    [] t = "main" /\ mn.pc \in {"track", "ltrack", "ptrack"} -> {Acc("pair", TRUE)}
    [] t = "main" /\ mn.pc = "lbuild" -> {Acc("scans", FALSE), Acc("poses", FALSE), Acc("matcher", TRUE)}
    [] t = "main" /\ mn.pc = "lmatch" -> {Acc("matcher", FALSE)}
    [] t = "main" /\ mn.pc = "laser" -> IF gm = <<>> THEN {Acc("matcher", TRUE)} ELSE {}
    [] t = "main" /\ mn.pc = "op" -> IF mn.op = "load" THEN {Acc("pointer", TRUE)} ELSE IF mn.op = "save" THEN {Acc("scans", FALSE), Acc("poses", FALSE), Acc("cons", FALSE)} ELSE {}
    [] t = "lc" /\ lc.pc = "grab" -> {Acc("pointer", FALSE), Acc("scans", FALSE)}
    [] t = "lc" /\ lc.pc = "list" -> {Acc("pointer", FALSE), Acc("scans", FALSE), Acc("poses", FALSE)}
    [] t = "lc" /\ lc.pc = "made" -> {Acc("matcher", FALSE)}
    [] t = "lc" /\ lc.pc = "cbuild" -> {Acc("pointer", FALSE), Acc("scans", FALSE), Acc("poses", FALSE), Acc("matcher", TRUE)}
    [] t = "lc" /\ lc.pc = "cmatch" -> {Acc("matcher", FALSE)}
    [] t = "lc" /\ lc.pc \in {"cadd", "crej", "opt2"} -> {Acc("pointer", FALSE)}
    [] t = "lc" /\ lc.pc = "cput" -> {Acc("pointer", FALSE), Acc("scans", FALSE), Acc("poses", TRUE), Acc("cons", TRUE)}
    [] t = "lc" /\ lc.pc = "opt3" -> {Acc("pointer", FALSE), Acc("scans", FALSE), Acc("poses", TRUE), Acc("cons", FALSE)}
    [] t = "pub" /\ pb.pc \in {"grid", "graph", "have"} -> {Acc("pointer", FALSE), Acc("scans", FALSE), Acc("poses", FALSE), Acc("cons", FALSE)}
    [] t = "pub" /\ pb.pc = "tf" -> {Acc("pair", FALSE)}
    [] OTHER -> {}
(* a lock taken for one step only counts as held during it *)
Holds(t) == ({x \in {"g", "m", "p"} : lk[x] = t} \cup {Waits(t)}) \ {"-"}
CanGo(t) == Waits(t) = "-" \/ lk[Waits(t)] = "-"
M11_NoRace == \A t, u \in Threads : t # u /\ CanGo(t) /\ CanGo(u) /\ Holds(t) \cap Holds(u) = {} =>
                 \A a \in Touch(t), b \in Touch(u) : a.v = b.v => ~a.w /\ ~b.w
(* temporal *)
M05_Eventually == <>[](~ok \/ ((N > 0 \/ Len(gs) > 1) => gh.grid = <<Map>> /\ gh.graph = <<Map>>))
M11_Answered == [](mn.pc # "idle" => <>(mn.pc = "idle"))
M11_Ends == [](~ok => <>(lc.pc = "exit" /\ pb.pc = "exit"))
M06_GoesOn == [](ok => <>(~ok \/ pb.pc = "sleep"))
M08_All == <>[](~ok \/ ~en \/ gm = <<>> \/ N <= Depth \/ (lc.g = cur /\ lc.next = Larger(N, Depth + 1)))
=============================================================================

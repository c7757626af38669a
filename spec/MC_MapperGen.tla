---------------------------- MODULE MC_MapperGen ----------------------------
(* Histories for the real node: words say what comes in and which thread    *)
(* goes on for how long.  Every word is tried in every state of the design  *)
(* that differs in what Key shows; each history ends with the word that is  *)
(* new.  The properties are checked along the way.                          *)
EXTENDS Mapper, Json, IOUtils
CONSTANTS MaxWords, Words, Tag
VARIABLES run, hist
gvars == <<vars, run, hist>>
MCCorr1 == {[x |-> 0, y |-> 1, t |-> 0]}
FarScan == {}
GInit == Init /\ run = "-" /\ hist = <<>>
Inp == IF "op" \in DOMAIN mn THEN <<mn.enable, mn.disable, mn.op>> ELSE IF "usable" \in DOMAIN mn THEN <<mn.usable, mn.o = trk.o, mn.r.x = 9>> ELSE <<>>
Key == <<N, Len(Map.cons), en, loc, stale, upd, gm = <<>>, lc.pc, lc.next, M!WantsOptimize(IF lc.newm THEN 1 ELSE 0, lc.num, lc.last, OptLimit), lc.g = cur, Len(gs), disk # <<>>, pb.pc, mn.pc, Inp, run>>
Word(w, act, r) == /\ w \in Words /\ act /\ run' = r /\ hist' = Append(hist, w)
Choose ==
  /\ run = "-" /\ mn.pc = "idle" /\ Len(hist) < MaxWords
  /\ \/ Word("S", MainScan(Fwd, FALSE, TRUE), "main")
     \/ Word("s", MainScan(P0, FALSE, TRUE), "main")
     \/ Word("z", MainScan(Fwd, FALSE, FALSE), "main")
     \/ Word("P", MainPose([x |-> 1, y |-> 0, t |-> 0], TRUE), "main")
     \/ Word("F", MainPose([x |-> 9, y |-> 0, t |-> 0], TRUE), "main")
     \/ Word("E", MainCfg(TRUE, FALSE, "none"), "main")
     \/ Word("D", MainCfg(FALSE, TRUE, "none"), "main")
     \/ Word("A", Len(gs) < 2 /\ MainCfg(FALSE, FALSE, "load"), "main")
     \/ Word("V", MainCfg(FALSE, FALSE, "save"), "main")
     \/ Word("p", PubStep, "pub")
     \/ Word("c", LcStep, "lc")
     \/ Word("m", LcStep, "lcm")
     \/ Word("l", LcStep, "lcl")          \* until it wants a lock
     \/ Word("k", PubStep, "publ")
(* a blocked main lets loop closure go on *)
Going == CASE run = "main" -> mn.pc # "idle"
           [] run = "pub" -> pb.pc # "sleep"
           [] run = "lc" -> lc.pc # "sleep"
           [] run = "lcm" -> lc.pc \notin {"sleep", "cmatch"}
           [] run = "lcl" -> lc.pc # "sleep" /\ Waits("lc") = "-"
           [] run = "publ" -> pb.pc # "sleep" /\ Waits("pub") = "-"
           [] OTHER -> FALSE
GStep == /\ run # "-" /\ UNCHANGED hist
         /\ IF ~Going THEN run' = "-" /\ UNCHANGED vars
            ELSE /\ UNCHANGED run
                 /\ CASE run = "main" -> IF On("main") = "lc" THEN LcStep ELSE MainBusy
                      [] run \in {"pub", "publ"} -> IF On("pub") = "lc" THEN LcStep ELSE IF On("pub") = "main" THEN MainBusy ELSE PubStep
                      [] OTHER -> IF On("lc") = "main" THEN MainBusy ELSE LcStep
GNext == Choose \/ GStep
(* registers: 1 the keys with the words tried, 2 the histories *)
ASSUME TLCSet(1, {}) /\ TLCSet(2, {})
Emit == run = "-" /\ run' # "-" =>
          LET k == <<Key, hist'[Len(hist')]>>
          IN IF k \in TLCGet(1) THEN TRUE ELSE TLCSet(1, TLCGet(1) \cup {k}) /\ TLCSet(2, TLCGet(2) \cup {hist'})
(* those that go on in another are left out *)
Maximal == LET S == TLCGet(2)
               fronts == {SubSeq(h, 1, k) : h \in S, k \in 0..(MaxWords - 1)}
               proper == UNION {{SubSeq(h, 1, k) : k \in 0..(Len(h) - 1)} : h \in S}
           IN S \ proper
Done == "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq({<<Tag>> \o h : h \in Maximal}))
=============================================================================

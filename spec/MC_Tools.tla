------------------------------ MODULE MC_Tools ------------------------------
(* The tools with the mapper that serves them, and the histories replayed on *)
(* the real tools: when the service comes up, how long the answer takes.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES tool, file, up, asked, answered, state,
          enabled, map, disk     \* of the mapper
Names == {"enable_mapping", "disable_mapping", "load_map", "save_map"}
Want(t) == CASE t = "enable_mapping" -> {"ENABLE_MAPPING"} [] t = "disable_mapping" -> {"DISABLE_MAPPING"}
             [] t = "load_map" -> {"LOAD_FROM_FILE"} [] t = "save_map" -> {"SAVE_TO_FILE"}
T == INSTANCE Tools WITH Wanted <- Want
Files == {"a", "b"}
Init == /\ \E t \in Names, f \in {<<>>} \cup {<<x>> : x \in Files} : T!TInit(t, f)
        /\ enabled \in BOOLEAN /\ map \in {"a", "new"} /\ disk = [x \in {"a"} |-> x]
(* what the mapper does between the question and the answer *)
Serve ==
  /\ T!Answer
  /\ LET r == asked[answered + 1] IN
     /\ enabled' = CASE "ENABLE_MAPPING" \in r.acts -> TRUE [] "DISABLE_MAPPING" \in r.acts -> FALSE [] OTHER -> enabled
     /\ map' = IF "LOAD_FROM_FILE" \in r.acts /\ r.file[1] \in DOMAIN disk THEN disk[r.file[1]] ELSE map
     /\ disk' = IF "SAVE_TO_FILE" \in r.acts /\ "LOAD_FROM_FILE" \notin r.acts /\ r.file[1] \notin DOMAIN disk
                THEN [x \in DOMAIN disk \cup {r.file[1]} |-> IF x = r.file[1] THEN map ELSE disk[x]] ELSE disk
Other == (T!Appear \/ T!Ask \/ T!End \/ T!Fail) /\ UNCHANGED <<enabled, map, disk>>
Next == Serve \/ Other
Spec == Init /\ [][Next]_<<tool, file, up, asked, answered, state, enabled, map, disk>> /\ WF_<<tool, file, up, asked, answered, state, enabled, map, disk>>(Next)
AskedOnce == T!AskedOnce
AskedRight == T!AskedRight
NothingWithoutFile == T!NothingWithoutFile
EndedAnswered == T!EndedAnswered
(* when the tool is back, it is done *)
Done == state = "end" =>
  CASE tool = "enable_mapping" -> enabled [] tool = "disable_mapping" -> ~enabled
    [] tool = "load_map" -> file[1] \in DOMAIN disk => map = disk[file[1]]
    [] tool = "save_map" -> file[1] \in DOMAIN disk
Eventually == <>(state \in {"end", "fail"})
(* quarter seconds until the service is there, and until it answers; -1: never *)
Ups == {0, 1, 4, 5, 13, 150, 3600, -1}
Delays == {0, 1, 4, 20, 41, 500, 8000, -1}
FileWords == {"-", "plain", "spaced", "relative", "absolute", "unicode", "quoted", "empty"}
ASSUME "OUT" \in DOMAIN IOEnv =>
  ndJsonSerialize(IOEnv.OUT, SetToSeq({<<t, ToString(u), ToString(d), f>> : t \in Names, u \in Ups, d \in Delays, f \in FileWords}))
=============================================================================

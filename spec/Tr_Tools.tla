------------------------------ MODULE Tr_Tools ------------------------------
(* T01: runs of the real command line tools against Tools.                   *)
EXTENDS TraceBase, Integers, Sequences, FiniteSets
VARIABLES tool, file, up, asked, answered, state, consts
Want(t) == CASE t = "enable_mapping" -> {"ENABLE_MAPPING"} [] t = "disable_mapping" -> {"DISABLE_MAPPING"}
             [] t = "load_map" -> {"LOAD_FROM_FILE"} [] t = "save_map" -> {"SAVE_TO_FILE"}
T == INSTANCE Tools WITH Wanted <- Want
(* what the mapper makes of an action: it looks at the bits of its constants *)
Bits(s) == {s[i] : i \in 1..Len(s)}
Hit(bits, name) == Bits(consts[name]) \cap bits # {}
Acts(bits) == {n \in DOMAIN consts : Hit(bits, n)}
st == <<tool, file, up, asked, answered, state, consts>>
TInit == l = 1 /\ tool = "" /\ file = <<>> /\ up = FALSE /\ asked = <<>> /\ answered = 0 /\ state = "none" /\ consts = <<>>
TNew == /\ IsEvent("new") /\ Must("the tool before came to an end", state # "run")
        /\ tool' = Ev.tool /\ file' = Ev.file /\ up' = FALSE /\ asked' = <<>> /\ answered' = 0 /\ state' = "run" /\ consts' = Ev.consts
(* the service appears unseen, between two events *)
TLook == IsEvent("look") /\ state = "run" /\ (up => Ev.there) /\ up' = Ev.there /\ UNCHANGED <<tool, file, asked, answered, state, consts>>
TAsk == /\ IsEvent("ask") /\ state = "run"
        /\ Must("asks the mapper", Ev.service = "configure" /\ Ev.type)
        /\ Must("asks only a mapper that is there", Ev.there)
        /\ Must("asks once", asked = <<>>)
        /\ Must("asks for what it is named after", Acts(Bits(Ev.bits)) = Want(tool))
        /\ Must("hands over the file name as given", T!NeedsFile => file # <<>> /\ Ev.file = file)
        /\ up' = TRUE
        /\ asked' = <<[acts |-> Acts(Bits(Ev.bits)), file |-> Ev.file, there |-> Ev.there]>>
        /\ UNCHANGED <<tool, file, answered, state, consts>>
TAnswer == IsEvent("answer") /\ T!Answer /\ UNCHANGED consts
TExit == /\ IsEvent("exit") /\ state = "run"
         /\ IF T!Able
            THEN /\ Must("asks before it ends", Len(asked) = 1)
                 /\ Must("waits for the answer", answered = 1)
                 /\ Must("ends well", Ev.code = 0)
                 /\ state' = "end"
            ELSE /\ Must("without a file name, asks for nothing and says so", asked = <<>> /\ Ev.code # 0)
                 /\ state' = "fail"
         /\ UNCHANGED <<tool, file, up, asked, answered, consts>>
(* given up by the harness after very long: the tool has to be waiting for what never came *)
TGiveUp == /\ IsEvent("giveup") /\ state = "run"
           /\ Must("goes on when the mapper is there", ~Ev.up => asked = <<>>)
           /\ Must("asks the mapper that is there, and ends when it answered", Ev.up => ~T!Able \/ (Len(asked) = 1 /\ answered = 0 /\ ~Ev.answers))
           /\ state' = "fail" /\ UNCHANGED <<tool, file, up, asked, answered, consts>>
TNext == TNew \/ TLook \/ TAsk \/ TAnswer \/ TExit \/ TGiveUp
AskedRight == T!AskedRight
EndedAnswered == T!EndedAnswered
NothingWithoutFile == T!NothingWithoutFile
=============================================================================

------------------------------- MODULE Tools --------------------------------
(* A command line tool (enable_mapping, disable_mapping, load_map FILE,      *)
(* save_map FILE) and the mapper it talks to.  The service may come up late  *)
(* or never, the answer may take any time.                                   *)
EXTENDS Naturals, Sequences
CONSTANTS Wanted(_)      \* what the tool is to ask for: the set of named actions
VARIABLES tool,          \* name
          file,          \* <<>> or <<file name>>
          up,            \* is the mapper's service there?
          asked,         \* requests sent: [acts, file, there]
          answered,      \* how many were answered
          state          \* of the tool: "run" or "end" or "fail"
tvars == <<tool, file, up, asked, answered, state>>
NeedsFile == tool \in {"load_map", "save_map"}
Able == ~NeedsFile \/ file # <<>>
TInit(t, f) == tool = t /\ file = f /\ up = FALSE /\ asked = <<>> /\ answered = 0 /\ state = "run"
(* environment *)
Appear == ~up /\ up' = TRUE /\ UNCHANGED <<tool, file, asked, answered, state>>
Answer == up /\ answered < Len(asked) /\ answered' = answered + 1 /\ UNCHANGED <<tool, file, up, asked, state>>
(* the tool *)
Ask == /\ state = "run" /\ up /\ Able /\ asked = <<>>
       /\ asked' = <<[acts |-> Wanted(tool), file |-> IF NeedsFile THEN file ELSE <<"">>, there |-> up]>>
       /\ UNCHANGED <<tool, file, up, answered, state>>
End == /\ state = "run" /\ Len(asked) = 1 /\ answered = 1
       /\ state' = "end" /\ UNCHANGED <<tool, file, up, asked, answered>>
Fail == state = "run" /\ ~Able /\ state' = "fail" /\ UNCHANGED <<tool, file, up, asked, answered>>
TNext == Appear \/ Answer \/ Ask \/ End \/ Fail
TSpec(t, f) == TInit(t, f) /\ [][TNext]_tvars
(* T01 *)
AskedOnce == Len(asked) <= 1
AskedRight == \A i \in 1..Len(asked) : asked[i].there /\ asked[i].acts = Wanted(tool) /\ (NeedsFile => asked[i].file = file)
NothingWithoutFile == ~Able => asked = <<>> /\ state # "end"
EndedAnswered == state = "end" => Len(asked) = 1 /\ answered = 1
(* a mapper that appears and answers is always asked, and the tool ends *)
Ends == (state # "run") \/ ~Able \/ ENABLED (Appear \/ Answer \/ Ask \/ End)
=============================================================================

INIT TInit
NEXT TNext
INVARIANTS AskedRight EndedAnswered NothingWithoutFile
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

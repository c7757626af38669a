INIT TInit
NEXT TNext
INVARIANT MapIsTrue
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

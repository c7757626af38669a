INIT TInit
NEXT TNext
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

INIT TInit
NEXT TNext
CONSTANT Prop = "M08"
VIEW View
CONSTRAINT Track
INVARIANT Ended
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

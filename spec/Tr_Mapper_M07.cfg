INIT TInit
NEXT TNext
CONSTANT Prop = "M07"
VIEW View
CONSTRAINT Track
INVARIANT Ended
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

INIT TInit
NEXT TNext
CONSTANT Prop = "M03"
VIEW View
CONSTRAINT Track
INVARIANT Ended
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

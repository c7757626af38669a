INIT TInit
NEXT TNext
CONSTANT Prop = "M13"
VIEW View
CONSTRAINT Track
INVARIANT Ended
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

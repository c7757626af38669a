INIT TInit
NEXT TNext
CONSTANT Prop = "P05"
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

INIT TInit
NEXT TNext
CONSTANT Prop = "G03"
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

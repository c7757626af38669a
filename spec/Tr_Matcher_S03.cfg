INIT TInit
NEXT TNext
CONSTANT Prop = "S03"
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

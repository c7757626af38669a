INIT TInit
NEXT TNext
CONSTANT Prop = "S01"
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

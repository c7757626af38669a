INIT TInit
NEXT TNext
CONSTANT Prop = "S02"
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

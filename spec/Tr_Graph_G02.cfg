INIT TInit
NEXT TNext
CONSTANT Prop = "G02"
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

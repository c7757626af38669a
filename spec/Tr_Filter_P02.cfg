INIT TInit
NEXT TNext
CONSTANT Prop = "P02"
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

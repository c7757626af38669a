INIT TInit
NEXT TNext
CONSTANT Prop = "O02"
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

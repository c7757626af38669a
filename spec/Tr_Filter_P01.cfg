INIT TInit
NEXT TNext
CONSTANT Prop = "P01"
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

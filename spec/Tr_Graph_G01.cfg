INIT TInit
NEXT TNext
CONSTANT Prop = "G01"
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

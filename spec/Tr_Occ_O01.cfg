INIT TInit
NEXT TNext
CONSTANT Prop = "O01"
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

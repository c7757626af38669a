INIT Init
NEXT Next
CONSTANT R = 50
CONSTANT Small = 3
INVARIANTS Ends Connected NoRepeat Straight Bresenham Bounded Classified Order Inside
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANT R = 20
CONSTANT Small = 2
INVARIANTS Ends Connected NoRepeat Straight Bresenham Bounded Classified Order Inside
CHECK_DEADLOCK FALSE

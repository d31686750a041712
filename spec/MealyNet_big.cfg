SPECIFICATION Spec
CONSTANTS N = 3 B = {3, 5, 6, 7} BC = {5, 7}
INVARIANTS Ends Right
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 2 B = {1, 2, 3, 4, 5, 6, 7} BC = {3, 5, 6, 7}
INVARIANTS Ends Right
CHECK_DEADLOCK FALSE

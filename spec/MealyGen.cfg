SPECIFICATION Spec
CONSTANTS N = 3 B = {5, 7} BC = {7}
INVARIANTS Emit
CHECK_DEADLOCK FALSE

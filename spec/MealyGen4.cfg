SPECIFICATION Spec
CONSTANTS N = 4 B = {7} BC = {}
INVARIANTS Emit
CHECK_DEADLOCK FALSE

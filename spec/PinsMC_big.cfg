SPECIFICATION Spec
CONSTANTS Slots = 3 Depth = 8
INVARIANTS Order Closed
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Slots = 3 Depth = 6
INVARIANTS Order Closed
CHECK_DEADLOCK FALSE

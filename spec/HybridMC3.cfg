SPECIFICATION Spec
CONSTANTS K = 3 Size = 1
INVARIANTS Emit Legal Since Sent Clear
CHECK_DEADLOCK FALSE

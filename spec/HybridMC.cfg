SPECIFICATION Spec
CONSTANTS K = 2 Size = 2
INVARIANTS Emit Legal Since Sent Clear
CHECK_DEADLOCK FALSE

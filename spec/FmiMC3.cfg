SPECIFICATION Spec
CONSTANTS K = 3 Size = 1
INVARIANTS Emit Legal Mode Tells Same Wanted
CHECK_DEADLOCK FALSE

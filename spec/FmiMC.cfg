SPECIFICATION Spec
CONSTANTS K = 2 Size = 2
INVARIANTS Emit Legal Mode Tells Same Wanted
CHECK_DEADLOCK FALSE

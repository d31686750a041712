SPECIFICATION Spec
CONSTANTS K = 2 Size = 2
INVARIANTS Emit Legal Agree
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS K = 3 Size = 2
INVARIANTS Emit Legal Agree
CHECK_DEADLOCK FALSE

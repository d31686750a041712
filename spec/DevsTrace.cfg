SPECIFICATION Spec
VIEW View
INVARIANT Inv
POSTCONDITION Complete
CHECK_DEADLOCK FALSE

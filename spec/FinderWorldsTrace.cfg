SPECIFICATION Spec
VIEW View
POSTCONDITION Complete
CHECK_DEADLOCK FALSE

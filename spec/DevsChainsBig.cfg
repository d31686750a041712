SPECIFICATION Spec
CONSTANTS K = 4 Family = "chains" Size = 1
INVARIANTS Emit Legal Clocks Kept Same Shape Again
CHECK_DEADLOCK FALSE

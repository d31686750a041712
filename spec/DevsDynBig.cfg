SPECIFICATION Spec
CONSTANTS K = 4 Family = "dyn" Size = 2
INVARIANTS Emit Legal Clocks Kept Same Shape Again
CHECK_DEADLOCK FALSE

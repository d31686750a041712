SPECIFICATION Spec
CONSTANTS N = 7 R = 2 Cap0 = 2
INVARIANTS Refines Places Heap Reports Fits
ACTION_CONSTRAINT EmitT
VIEW View
CHECK_DEADLOCK FALSE

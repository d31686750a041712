SPECIFICATION Spec
CONSTANTS N = 9 R = 3 Cap0 = 2
INVARIANTS Refines Places Heap Reports Fits
ACTION_CONSTRAINT EmitT
VIEW View
CHECK_DEADLOCK FALSE

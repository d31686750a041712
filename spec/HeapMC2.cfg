SPECIFICATION Spec
CONSTANTS N = 6 R = 2
INVARIANTS Refines Places Heap Reports
ACTION_CONSTRAINT EmitT
VIEW View
CHECK_DEADLOCK FALSE

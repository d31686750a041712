SPECIFICATION Spec
CONSTANTS NM = 1 NP = 2 NC = 2 K = 99 MaxPend = 2
INVARIANTS Agrees OK
ACTION_CONSTRAINT EmitT
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NM = 2 NP = 2 K = 99 MaxCount = 1 MaxPend = 1
INVARIANTS OK
ACTION_CONSTRAINT EmitT
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NM = 2 NP = 2 K = 4 MaxCount = 3 MaxPend = 99
INVARIANTS Emit OK
CHECK_DEADLOCK FALSE

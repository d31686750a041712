SPECIFICATION Spec
CONSTANTS M = 2 G = 512 Tols = {128, 256, 1024} Lengths = {0, 2048, 4096}
INVARIANTS Emit Permitted Brackets Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS M = 2 G = 1024 Tols = {256, 512} Lengths = {4096}
INVARIANTS Emit Permitted Brackets Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE

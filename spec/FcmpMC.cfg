SPECIFICATION Spec
CONSTANTS N = 12 EM = 3 EE = 5
INVARIANTS Antisymmetric Reflexive Mirror Grows Exact Scale Agrees
CHECK_DEADLOCK FALSE

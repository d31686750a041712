SPECIFICATION Spec
CONSTANTS N = 40 EM = 5 EE = 8
INVARIANTS Antisymmetric Reflexive Mirror Grows Exact Scale Agrees
CHECK_DEADLOCK FALSE

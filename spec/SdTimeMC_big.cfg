SPECIFICATION Spec
CONSTANT R = 5
INVARIANTS Total Transitive Inverts Unique Forward Monotone Neutral Elapse
CHECK_DEADLOCK FALSE

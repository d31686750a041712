------------------------------ MODULE SdTimeMC ------------------------------
(* The laws of super dense time on a grid: the rules in DevsTime give a total *)
(* order, sums that move forward and differences that invert them.            *)
EXTENDS DevsTime, TLC
CONSTANT R
VARIABLES a, b, c
T == (0..R) \X (0..R)
Init == a \in T /\ b \in T /\ c \in T
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Total == (Lt(a, b) \/ Lt(b, a) \/ a = b) /\ ~(Lt(a, b) /\ Lt(b, a)) /\ ~Lt(a, a)
Transitive == Lt(a, b) /\ Lt(b, c) => Lt(a, c)
Inverts == Le(b, a) => Add(b, Sub(a, b)) = a /\ ~Neg(Sub(a, b))
Unique == Add(b, c) = a => c = Sub(a, b)
Forward == Le(a, Add(a, b)) /\ (b # Zero /\ (b[1] > 0 \/ b[2] > 0) => Lt(a, Add(a, b)))
Monotone == Lt(b, c) => Lt(Add(a, b), Add(a, c))
Neutral == Add(a, Zero) = a /\ Sub(a, a) = Zero
Elapse == Le(a, b) /\ Le(b, c) => Le(Sub(b, a), Sub(c, a))
=============================================================================

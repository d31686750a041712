------------------------------- MODULE FcmpMC -------------------------------
(* Laws of the tolerant comparison for all numbers and tolerances in a range *)
EXTENDS Fcmp
CONSTANTS N, EM, EE
VARIABLES a, b, em, ee
Init == a \in -N..N /\ b \in -N..N /\ em \in 0..EM /\ ee \in 0..EE
Next == UNCHANGED <<a, b, em, ee>>
Spec == Init /\ [][Next]_<<a, b, em, ee>>
C(x, y) == Compare(x, y, em, ee)
Antisymmetric == C(a, b) = -C(b, a)
Reflexive == C(a, a) = 0
Mirror == C(-a, -b) = C(b, a)
(* A larger tolerance makes more numbers equal, none makes only equal ones so *)
Grows == C(a, b) = 0 => Compare(a, b, em + 1, ee) = 0
Exact == em = 0 => (C(a, b) = 0 <=> a = b)
(* Scaling both numbers by two changes nothing *)
Scale == C(2 * a, 2 * b) = C(a, b)
(* The order agrees with the order of numbers *)
Agrees == (a < b => C(a, b) # 1) /\ (a > b => C(a, b) # -1)
=============================================================================

------------------------------ MODULE DevsTime ------------------------------
(* Simulation time.  Every time is a pair <<t, k>> of integers: t counts the *)
(* unit of time that the harness uses and k is the integer part of super     *)
(* dense time, which is always zero for ordinary clocks.  With k = 0 the     *)
(* rules of super dense time below are the rules of ordinary time, so one    *)
(* specification serves all clocks.                                          *)
EXTENDS Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
Inf  == <<1000000000, 1000000000>>
Zero == <<0, 0>>
Lt(a, b)  == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b)  == a = b \/ Lt(a, b)
Add(a, b) == IF b[1] = 0 THEN <<a[1], a[2] + b[2]>> ELSE <<a[1] + b[1], b[2]>>
(* Length of the interval from b to a *)
Sub(a, b) == IF a[1] = b[1] THEN <<0, a[2] - b[2]>> ELSE <<a[1] - b[1], a[2]>>
Neg(a) == Lt(a, Zero)
(* The least element of a set of times, Inf if there is none *)
Least(S) == FoldLeft(LAMBDA a, b : IF Lt(b, a) THEN b ELSE a, Inf, SetToSeq(S))
(* Due time of a model that changed at time t and has time advance dt *)
Due(t, dt) == IF dt = Inf THEN Inf ELSE Add(t, dt)
=============================================================================

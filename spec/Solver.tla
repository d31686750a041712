------------------------------- MODULE Solver --------------------------------
(* Numerical integrators.  The first state variable is a clock with rate one. *)
(* Times are multiples of 2^-16.  Each call is recorded with                  *)
(*   k    "int": integrate with limit lim, "adv": advance by lim              *)
(*   h    step that was reported, lim for "adv"; pos: it is positive          *)
(*   fin  all variables are finite afterwards                                 *)
(*   c0, c1  the clock before and after                                       *)
(* The other variables follow one of two kinds of systems whose solution is   *)
(* known: with numbers b, in a chain variable i + 1 is the derivative of      *)
(* variable i, and in a driven system the derivative of each variable is a    *)
(* function of the clock; in both cases variable j of the solution is         *)
(*   P(j, t) = b[j] + b[j + 1] t + b[j + 2] t^2 / 2! + ...                    *)
(* with zero for numbers beyond the end.  A value is recorded as a pair: the  *)
(* nearest multiple of 1/98304 (= 1/(8^4 4!)) and the rest in 10^-6 of this.  *)
(* An explicit integrator takes as the error of a step what a companion method *)
(* of lower order would get wrong.  For x' = b * clock^m, where m is the least *)
(* degree that the companion gets wrong, this is                              *)
(*   b h^2 / 2    m = 1, the method of Euler                                   *)
(*   b h^5 / 120  m = 4, the method of Kutta (Simpson)                         *)
(* Such steps are recorded (Err) with h, the tolerance and the largest b as    *)
(* logarithms, log2 times 1000.  For the implicit integrator res is the amount *)
(* in 10^-6 by which the trapezoidal rule misses the state that is returned;   *)
(* it takes the difference from the method of Euler as the error, and corrects *)
(* its next step if that was too large (Adv: it advanced by several steps).    *)
EXTENDS Integers, Sequences

Abs(a) == IF a < 0 THEN -a ELSE a
Pow(x, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN x ELSE IF n = 2 THEN x * x ELSE IF n = 3 THEN x * x * x ELSE x * x * x * x
Fact == <<1, 2, 6, 24>>
(* 98304 * (k / 8)^i / i! *)
Term(k, i) == IF i = 0 THEN 98304 ELSE Pow(k, i) * Pow(8, 4 - i) * (24 \div Fact[i])
RECURSIVE Poly(_, _, _, _)
Poly(b, j, k, i) == IF j + i > Len(b) THEN 0 ELSE b[j + i] * Term(k, i) + Poly(b, j, k, i + 1)
P(b, j, k) == Poly(b, j, k, 0)

SolverInit(ev) == [last |-> -1000000, kind |-> ev.kind, tol |-> IF "tol" \in DOMAIN ev THEN ev.tol ELSE 0, big |-> IF "big" \in DOMAIN ev THEN ev.big ELSE 0, b |-> ev.b, hmax |-> ev.hmax, sl |-> ev.sl, c |-> 0]
OnGrid(s, c) == c[1] % 8192 = 0 /\ Abs(c[2]) <= s.sl.g
CallBad(s, ev) ==
    (IF ev.k = "int" /\ ev.lim > 0 /\ ~ev.pos THEN {"i-step"} ELSE {})
    \cup (IF ev.h > ev.lim \/ (ev.k = "int" /\ ev.h > s.hmax) THEN {"i-step"} ELSE {})
    \cup (IF Abs(ev.c1[1] - ev.c0[1] - ev.h) > s.sl.t THEN {IF ev.k = "int" THEN "i-clock" ELSE "i-adv"} ELSE {})
    \cup (IF ~ev.fin THEN {"i-finite"} ELSE {})
    \cup (IF OnGrid(s, ev.c1) /\ (\E j \in DOMAIN ev.y :
                LET d == ev.y[j][1] - P(s.b, j, ev.c1[1] \div 8192)
                IN Abs(d) > s.sl.v \/ (s.sl.v = 0 /\ Abs(ev.y[j][2]) > s.sl.r))
          THEN {"i-order"} ELSE {})
    \cup (IF ~OnGrid(s, ev.c1) /\ ev.want THEN {IF ev.k = "int" THEN "i-clock" ELSE "i-adv"} ELSE {})
ErrBad(s, ev) ==
    CASE s.kind = 0 -> IF s.big + 2 * ev.h - 1000 > s.tol + 10 THEN {"i-error"} ELSE {}
      [] s.kind = 1 -> IF s.big + 5 * ev.h - 6907 > s.tol + 10 THEN {"i-error"} ELSE {}
      [] s.kind = 3 -> (IF ev.res > 100 THEN {"i-implicit"} ELSE {})
                       (* differences below 10^-3 drown in the tolerance of the solver *)
                       \cup (IF s.last > -100000 /\ s.big + 2 * s.last - 1000 > -9966 /\ s.big + 2 * ev.h - 1000 > s.tol + 40 THEN {"i-error"} ELSE {})
      [] s.kind = 2 -> IF ev.res > 100 THEN {"i-implicit"} ELSE {}
SolverBad(s, ev) ==
    CASE ev.e = "Call" -> CallBad(s, ev)
      [] ev.e = "Err" -> ErrBad(s, ev)
      [] ev.e = "Adv" -> {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang" -> {"hang"}
SolverDo(s, ev) == [s EXCEPT !.last = IF ev.e = "Err" THEN ev.h ELSE -1000000]
=============================================================================

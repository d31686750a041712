------------------------------- MODULE Spline --------------------------------
(* Interpolation by cubic polynomials.  The data at both ends of an interval  *)
(* of length k / 8 are values and derivatives of the polynomials with the      *)
(* coefficients c[i] = <<c0, c1, c2, c3>>; the value at j / 8 must be that of  *)
(* the polynomial, since a cubic is determined by these data.  A value v is    *)
(* the nearest multiple of 1/512 and the rest in 10^-6 of this.                *)
EXTENDS Integers, Sequences
Abs(a) == IF a < 0 THEN -a ELSE a
Value(c, j) == 512 * c[1] + 64 * j * c[2] + 8 * j * j * c[3] + j * j * j * c[4]
SplineInit(ev) == <<>>
SplineBad(s, ev) ==
    CASE ev.e = "Point" -> IF \A i \in DOMAIN ev.c : ev.v[i][1] = Value(ev.c[i], ev.j) /\ Abs(ev.v[i][2]) <= 100 THEN {} ELSE {"spline"}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang" -> {"hang"}
SplineDo(s, ev) == s
=============================================================================

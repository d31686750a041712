-------------------------------- MODULE Fcmp --------------------------------
(* Tolerant comparison of numbers.  The numbers are n1 * 2^z and n2 * 2^z,   *)
(* the tolerance is em * 2^-ee.  With b the number of bits of the larger one *)
(* of |n1|, |n2| the power of two that belongs to it is 2^(b+z), so that the *)
(* numbers count as equal iff |n1 - n2| <= em * 2^(b-ee), whatever z is.     *)
EXTENDS Integers, FiniteSets, TLC, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x < y THEN y ELSE x
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
Near(n1, n2, em, ee) ==
    LET b == Bits(Max2(Abs(n1), Abs(n2)))  d == Abs(n1 - n2) IN
    IF d = 0 THEN TRUE
    ELSE IF ee >= b THEN d * 2^(ee - b) <= em ELSE d <= em * 2^(b - ee)
Compare(n1, n2, em, ee) ==
    IF Near(n1, n2, em, ee) THEN 0 ELSE IF n1 > n2 THEN 1 ELSE -1
(* Results of the operators <  <=  >  >=  == and of < and == with a number *)
Operators(c) == <<c < 0, c <= 0, c > 0, c >= 0, c = 0, c < 0, c = 0>>
FcmpInit(ev) == <<>>
FcmpBad(s, ev) ==
    CASE ev.e = "F" ->
            LET c == Compare(ev.n1, ev.n2, ev.em, ev.ee) IN
            (IF ev.c # c THEN {"fcmp"} ELSE {})
            \cup (IF ev.cb # -ev.c THEN {"fcmp-anti"} ELSE {})
            \cup (IF ev.ops # Operators(c) THEN {"fcmp-ops"} ELSE {})
            \cup (IF ev.sum # ev.n1 + ev.n2 \/ ev.dif # ev.n1 - ev.n2 THEN {"fcmp-arith"} ELSE {})
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
FcmpDo(s, ev) == s
=============================================================================

-------------------------------- MODULE Pins --------------------------------
(* Identities of pins.  Slots hold pins (or values on pins); s.id is the     *)
(* identity that each slot has, s.lt the pairs of identities whose order is  *)
(* known from comparisons that were made, closed under transitivity.         *)
EXTENDS Integers, FiniteSets, TLC, Sequences
PinsInit(ev) == [id |-> [i \in 1..ev.slots |-> 0], next |-> 1, lt |-> {}]
(* A fresh identity that no other slot has ever had *)
Fresh(s, i) == [s EXCEPT !.id[i] = s.next, !.next = @ + 1]
Copy(s, i, j) == [s EXCEPT !.id[i] = s.id[j]]
Known(s, x, y) == <<x, y>> \in s.lt
Learn(s, x, y) ==
    LET below == {x} \cup {p[1] : p \in {q \in s.lt : q[2] = x}}
        above == {y} \cup {p[2] : p \in {q \in s.lt : q[1] = y}}
    IN [s EXCEPT !.lt = @ \cup (below \X above)]
(* r: results of == != < <= > >= *)
Legal(s, x, y, r) ==
    IF x = y THEN r = <<TRUE, FALSE, FALSE, TRUE, FALSE, TRUE>>
    ELSE \/ r = <<FALSE, TRUE, TRUE, TRUE, FALSE, FALSE>> /\ ~Known(s, y, x)
         \/ r = <<FALSE, TRUE, FALSE, FALSE, TRUE, TRUE>> /\ ~Known(s, x, y)
PinsBad(s, ev) ==
    CASE ev.e = "New"  -> {}
      [] ev.e = "Copy" -> {}
      [] ev.e = "Cmp"  -> IF Legal(s, s.id[ev.i], s.id[ev.j], ev.r) THEN {} ELSE {"pin-order"}
      [] ev.e = "Bulk" -> IF ev.made = ev.distinct THEN {} ELSE {"pin-unique"}
      [] ev.e = "Val"  -> IF ev.r = ev.v THEN {} ELSE {"pin-value"}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
PinsDo(s, ev) ==
    CASE ev.e = "New"  -> Fresh(s, ev.i)
      [] ev.e = "Copy" -> Copy(s, ev.i, ev.j)
      [] ev.e = "Cmp"  -> LET x == s.id[ev.i]  y == s.id[ev.j] IN
                          IF x = y THEN s ELSE IF ev.r[3] THEN Learn(s, x, y) ELSE Learn(s, y, x)
      [] OTHER -> s
=============================================================================

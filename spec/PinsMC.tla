------------------------------- MODULE PinsMC -------------------------------
(* All short histories of making, copying and comparing pins: what is known  *)
(* of the order never becomes contradictory and always can be completed.     *)
EXTENDS Pins
CONSTANTS Slots, Depth
VARIABLES s, n
Init == s = PinsInit([slots |-> Slots]) /\ n = 0
Made == {i \in 1..Slots : s.id[i] # 0}
Ev == {[e |-> "New", i |-> i] : i \in 1..Slots}
      \cup {[e |-> "Copy", i |-> i, j |-> j] : i \in 1..Slots, j \in Made}
      \cup {[e |-> "Cmp", i |-> i, j |-> j, r |-> r] : i \in Made, j \in Made,
            r \in {<<TRUE, FALSE, FALSE, TRUE, FALSE, TRUE>>, <<FALSE, TRUE, TRUE, TRUE, FALSE, FALSE>>,
                   <<FALSE, TRUE, FALSE, FALSE, TRUE, TRUE>>}}
Next == n < Depth /\ \E ev \in Ev : PinsBad(s, ev) = {} /\ s' = PinsDo(s, ev) /\ n' = n + 1
Spec == Init /\ [][Next]_<<s, n>>
Order == \A p \in s.lt : p[1] # p[2] /\ <<p[2], p[1]>> \notin s.lt
Closed == \A p, q \in s.lt : p[2] = q[1] => <<p[1], q[2]>> \in s.lt
(* Two pins have a common identity only by copying *)
=============================================================================

-------------------------------- MODULE Twin --------------------------------
(* Two simulations of one model, with its components at other addresses and   *)
(* its parts and couplings given in another order, must agree in every step.  *)
(* A step is recorded with the time at which it is executed, the time that is *)
(* returned, the next event time, and the output, input and transitions of    *)
(* the step, which are bags.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bag(q) == [x \in {q[i] : i \in DOMAIN q} |-> Cardinality({i \in DOMAIN q : q[i] = x})]
Step(ev) == [at |-> ev.at, r |-> ev.r, t |-> ev.t, out |-> Bag(ev.out), in |-> Bag(ev.in), tr |-> Bag(ev.tr)]
TwinInit(ev) == [run |-> 0, steps |-> <<>>, i |-> 0, dead |-> FALSE]
TwinBad(s, ev) ==
    CASE ev.e = "Run" -> {}
      [] ev.e = "Step" -> IF s.run = 1 THEN {}
                          ELSE IF s.i >= Len(s.steps) THEN {"twin-length"}
                          ELSE IF s.steps[s.i + 1] # Step(ev) THEN {"twin-step"} ELSE {}
      [] ev.e = "Fin" -> IF s.run = 1 THEN {}
                         ELSE IF s.i # Len(s.steps) \/ ev.dead # s.dead THEN {"twin-length"} ELSE {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang" -> {"hang"}
TwinDo(s, ev) ==
    CASE ev.e = "Run" -> [s EXCEPT !.run = ev.r, !.i = 0]
      [] ev.e = "Step" -> IF s.run = 1 THEN [s EXCEPT !.steps = Append(@, Step(ev))] ELSE [s EXCEPT !.i = @ + 1]
      [] ev.e = "Fin" -> IF s.run = 1 THEN [s EXCEPT !.dead = ev.dead] ELSE s
=============================================================================

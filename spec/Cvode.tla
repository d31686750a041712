-------------------------------- MODULE Cvode ---------------------------------
(* The wrapper that makes an atomic model of a system that is integrated by a  *)
(* solver with restarts.                                                       *)
(*                                                                             *)
(* The state vector is <<clock, x, v, a, w>> with d clock/dt = 1, dx/dt = v.   *)
(* Ta, Out, Int, Ext and Conf pairs (B E) are calls of the atomic model; the    *)
(* calls of the user's model inside them are cInteg and cUntil (integrate, with *)
(* the state before and after, the end time and whether an event was reported), *)
(* cReinit, cInt, cExt, cConf and cOut.                                        *)
(* State fields                                                                *)
(*   q, t    state after the last change, and its time                          *)
(*   p, tp   state at the end of the integration from there, and its time       *)
(*   ev      was an event reported at that end?                                 *)
(*   sim     are the calls made by a simulator?  Then now is the time of its     *)
(*           step on the model's clock, which is ahead of the simulator's by    *)
(*           off since the model joined (Join) the simulation.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
CvodeInit(ev) == [q |-> ev.q, t |-> 0, p |-> ev.q, tp |-> 0, ev |-> FALSE, ph |-> "idle", calls |-> <<>>, x |-> <<>>, dt |-> 0, del |-> 0, sim |-> FALSE, now |-> 0, off |-> 0]
Calls(s, k) == SelectSeq(s.calls, LAMBDA c : c.e = k)
Bag(q) == [x \in {q[i] : i \in DOMAIN q} |-> Cardinality({i \in DOMAIN q : q[i] = x})]
Only(s, ks) == IF \A i \in DOMAIN s.calls : s.calls[i].e \in ks THEN {} ELSE {"v-phase"}

\* When the time advance is asked for again, the model may integrate again only from the state after the last change
TaBad(s, ev) ==
    LET c == Calls(s, "cInteg")  r == Calls(s, "cReinit") IN
    Only(s, {"cInteg", "cReinit"})
    \cup (IF s.ph = "ready" /\ c = <<>> THEN (IF ev.t # s.tp - s.t THEN {"v-ta"} ELSE {}) \cup (IF ev.q # s.p THEN {"v-state"} ELSE {})
          ELSE IF Len(c) # 1 THEN {"v-integ"}
          ELSE (IF c[1].q # s.q \/ ev.q # c[1].r \/ (\E i \in DOMAIN r : r[i].q # s.q \/ r[i].t # s.t) THEN {"v-state"} ELSE {})
               \cup (IF s.ph = "ready" /\ r = <<>> THEN {"v-restart"} ELSE {})
               \cup (IF ev.t # c[1].tf - s.t THEN {"v-ta"} ELSE {}))
TaDo(s, ev) ==
    LET q == Calls(s, "cInteg") IN
    IF q = <<>> THEN s ELSE [s EXCEPT !.p = q[1].r, !.tp = q[1].tf, !.ev = q[1].ev, !.ph = "ready"]

OutBad(s, ev) ==
    LET c == Calls(s, "cOut") IN
    Only(s, {"cOut"})
    \cup (IF Len(c) # (IF s.ev THEN 1 ELSE 0) THEN {"v-out"}
          ELSE IF s.ev THEN (IF c[1].q # s.p THEN {"v-state"} ELSE {}) \cup (IF Bag(ev.y) # Bag(c[1].y) THEN {"v-value"} ELSE {})
          ELSE IF ev.y # <<>> THEN {"v-value"} ELSE {})
\* A change of the state by call c of the model
By(s, ev, c, q) == (IF c.q # q THEN {"v-state"} ELSE {}) \cup (IF ev.q # c.r THEN {"v-state"} ELSE {})
Input(s, c) == IF Bag(c.x) # Bag(s.x) THEN {"v-input"} ELSE {}

IntBad(s, ev) ==
    LET c == Calls(s, "cInt") IN
    Only(s, {"cInt"})
    \cup (IF Len(c) # (IF s.ev THEN 1 ELSE 0) THEN {"v-int"}
          ELSE IF s.ev THEN By(s, ev, c[1], s.p) ELSE IF ev.q # s.p THEN {"v-state"} ELSE {})
ConfBad(s, ev) ==
    LET c == Calls(s, "cConf")  e == Calls(s, "cExt") IN
    Only(s, {"cConf", "cExt"})
    \cup (IF s.ev THEN IF Len(c) # 1 \/ e # <<>> THEN {"v-conf"} ELSE By(s, ev, c[1], s.p) \cup Input(s, c[1])
          ELSE IF Len(e) # 1 \/ c # <<>> THEN {"v-conf"}
          ELSE By(s, ev, e[1], s.p) \cup Input(s, e[1]) \cup (IF e[1].t # s.tp THEN {"v-time"} ELSE {}))
ExtBad(s, ev) ==
    LET u == Calls(s, "cUntil")  c == Calls(s, "cConf")  e == Calls(s, "cExt")  r == Calls(s, "cReinit") IN
    (IF s.dt > s.tp - s.t THEN {IF s.sim THEN "v-sim" ELSE "pre"} ELSE {})
    \cup Only(s, {"cUntil", "cConf", "cExt", "cReinit"})
    \cup (IF Len(u) # 1 \/ Len(r) # 1 THEN {"v-restart"}
          ELSE (IF r[1].q # s.q \/ r[1].t # s.t \/ u[1].q # s.q THEN {"v-restart"} ELSE {})
               \cup (IF u[1].tf # s.t + s.dt THEN {"v-time"} ELSE {})
               \cup (IF u[1].ev THEN IF Len(c) # 1 \/ e # <<>> THEN {"v-ext"} ELSE By(s, ev, c[1], u[1].r) \cup Input(s, c[1])
                     ELSE IF Len(e) # 1 \/ c # <<>> THEN {"v-ext"}
                     ELSE By(s, ev, e[1], u[1].r) \cup Input(s, e[1]) \cup (IF e[1].t # s.t + s.dt THEN {"v-time"} ELSE {})))
Settle(s, ev, t) == [s EXCEPT !.q = ev.q, !.t = t, !.ph = "idle"]

Inner == {"cInteg", "cUntil", "cReinit", "cInt", "cExt", "cConf", "cOut"}
CvodeBad(s, ev) ==
    CASE ev.e = "TaE" -> TaBad(s, ev)
      [] ev.e = "Step" -> IF s.ph # "ready" \/ ev.t + s.off < s.t \/ ev.t + s.off > s.tp THEN {"v-sim"} ELSE {}
      [] ev.e = "ExtB" -> IF s.sim /\ s.t + ev.dt # s.now THEN {"v-sim"} ELSE {}
      [] ev.e \in {"OutB", "IntB", "ConfB"} -> IF s.sim /\ s.tp # s.now THEN {"v-sim"} ELSE {}
      [] ev.e = "OutE" -> OutBad(s, ev)
      [] ev.e = "IntE" -> IntBad(s, ev)
      [] ev.e = "ExtE" -> ExtBad(s, ev)
      [] ev.e = "ConfE" -> ConfBad(s, ev)
      [] ev.e = "DelE" -> IF s.del # 1 THEN {"life"} ELSE {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang" -> {"hang"}
      [] OTHER -> {}
CvodeDo(s, ev) ==
    CASE ev.e = "TaE" -> TaDo(s, ev)
      [] ev.e = "Step" -> [s EXCEPT !.sim = TRUE, !.now = ev.t + s.off]
      [] ev.e = "Join" -> [s EXCEPT !.off = s.t - ev.t]
      [] ev.e \in {"IntE", "ConfE"} -> Settle(s, ev, s.tp)
      [] ev.e = "ExtE" -> Settle(s, ev, s.t + s.dt)
      [] ev.e = "Del" -> [s EXCEPT !.del = @ + 1]
      [] ev.e \in Inner -> [s EXCEPT !.calls = Append(@, ev)]
      [] ev.e \in {"TaB", "OutB", "IntB", "ExtB", "ConfB"} ->
           [s EXCEPT !.calls = <<>>, !.x = IF "x" \in DOMAIN ev THEN ev.x ELSE <<>>, !.dt = IF "dt" \in DOMAIN ev THEN ev.dt ELSE 0]
      [] OTHER -> s
=============================================================================

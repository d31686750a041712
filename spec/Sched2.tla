------------------------------- MODULE Sched2 -------------------------------
(* The event list of schedule2.h: a priority queue that also keeps models    *)
(* without a next event.  The state is the function from the models in the   *)
(* list to the time advances they had when they were added or last updated.  *)
(* Events carry in t the time advance of model m at the call, and in ok if   *)
(* the call returned without an exception:                                   *)
(*   Add, Rm, Upd  add, remove, update model m                               *)
(*   All    update all models; ta has the time advances of all models        *)
(*   Next   remove the first model, which was m;  Clear  remove all          *)
(*   See    what the list reports: number of models n, smallest time t,      *)
(*          first model m (0 if there is none), imminent models im           *)
EXTENDS DevsTime, TLC, FiniteSets, Functions, Sequences

Put2(q, m, t) == (m :> t) @@ q
Out2(q, m) == [x \in DOMAIN q \ {m} |-> q[x]]
MinTime(q) == Least({q[m] : m \in DOMAIN q})
Imminent(q) == LET t == MinTime(q) IN {m \in DOMAIN q : q[m] = t}

Sched2Init(ev) == <<>>

Sched2Bad(q, ev) ==
    CASE ev.e = "Add" -> IF ev.ok = (ev.m \notin DOMAIN q) THEN {} ELSE {"r-throw"}
      [] ev.e \in {"Rm", "Upd"} -> IF ev.ok = (ev.m \in DOMAIN q) THEN {} ELSE {"r-throw"}
      [] ev.e = "Next" -> IF ev.m \in Imminent(q) THEN {} ELSE {"r-first"}
      [] ev.e = "See" ->
            (IF ev.n # Cardinality(DOMAIN q) \/ ev.empty # (DOMAIN q = {}) THEN {"r-size"} ELSE {})
            \cup (IF ev.t # MinTime(q) THEN {"r-min"} ELSE {})
            \cup (IF (DOMAIN q = {} /\ ev.m # 0) \/ (DOMAIN q # {} /\ ev.m \notin Imminent(q)) THEN {"r-first"} ELSE {})
            \cup (IF MinTime(q) # Inf /\ (Range(ev.im) # Imminent(q) \/ Len(ev.im) # Cardinality(Imminent(q)))
                  THEN {"r-imm"} ELSE {})
      [] ev.e \in {"All", "Clear"} -> {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
Sched2Do(q, ev) ==
    CASE ev.e \in {"Add", "Upd"} /\ ev.ok -> Put2(q, ev.m, ev.t)
      [] ev.e \in {"Rm", "Next"} /\ (ev.e = "Rm" => ev.ok) -> Out2(q, ev.m)
      [] ev.e = "All" -> [m \in DOMAIN q |-> ev.ta[m]]
      [] ev.e = "Clear" -> <<>>
      [] OTHER -> q
=============================================================================

------------------------------- MODULE Sched --------------------------------
(* The event list: a priority queue over models.  The state is the function  *)
(* from the models in the list to their times.  Events:                      *)
(*   Put  schedule model m at time t, which takes it out if t is infinite    *)
(*   Pop  remove a model with the smallest time; m is the model that left    *)
(*   See  what the list reports: number of models n, smallest time t, first  *)
(*        model m (0 if there is none), imminent models im                   *)
EXTENDS DevsTime, TLC, FiniteSets, Functions, Sequences

Put(q, m, t) == IF t = Inf THEN [x \in DOMAIN q \ {m} |-> q[x]] ELSE (m :> t) @@ q
MinTime(q) == Least({q[m] : m \in DOMAIN q})
Imminent(q) == LET t == MinTime(q) IN {m \in DOMAIN q : q[m] = t}

SchedInit(ev) == <<>>

SchedBad(q, ev) ==
    CASE ev.e = "Put" -> {}
      [] ev.e = "Pop" -> IF (DOMAIN q = {} /\ ev.m = 0) \/ ev.m \in Imminent(q) THEN {} ELSE {"q-pop"}
      [] ev.e = "See" ->
            (IF ev.n # Cardinality(DOMAIN q) \/ ev.empty # (DOMAIN q = {}) THEN {"q-size"} ELSE {})
            \cup (IF ev.t # MinTime(q) THEN {"q-min"} ELSE {})
            \cup (IF DOMAIN q # {} /\ ev.m \notin Imminent(q) THEN {"q-first"} ELSE {})
            \cup (IF Range(ev.im) # Imminent(q) \/ Len(ev.im) # Cardinality(Imminent(q)) THEN {"q-imm"} ELSE {})
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
SchedDo(q, ev) ==
    CASE ev.e = "Put" -> Put(q, ev.m, ev.t)
      [] ev.e = "Pop" -> IF ev.m = 0 THEN q ELSE Put(q, ev.m, Inf)
      [] OTHER -> q
=============================================================================

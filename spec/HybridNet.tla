------------------------------ MODULE HybridNet ------------------------------
(* Hybrid models and discrete models that are coupled in one simulation.  The *)
(* state is that of every model and what is on its way in the current step:   *)
(* each hybrid model behaves as Hybrid says, a relay (Moore) sends the sum of *)
(* what it was given after a delay, a filter (Mealy) passes what it is given  *)
(* at once, unless it passed two filters before.                              *)
(*   h      model u -> its state                                              *)
(*   to     model u -> models that get its output, once for every path        *)
(*   box    model u -> values that it is given in this step                   *)
(*   now    time of the step                                                  *)
(*   outed  models that produced output in this step                          *)
(*   moved  models that changed state in this step                            *)
(* Events of the simulation are NetStep (its time t, the time that was set or *)
(* -1, injected values x as pairs of model and value) and NetEnd; those of a   *)
(* model have its number u.                                                   *)
EXTENDS Hybrid, SequencesExt

HybridNetSoft == {}
HybridNetInit(ev) == [h |-> <<>>, to |-> ev.to, box |-> [u \in DOMAIN ev.to |-> <<>>], now |-> 0, outed |-> {}, moved |-> {}, on |-> FALSE]

IsHybrid(m) == m.kind \notin {"relay", "filter"}
(* A relay: d its delay, st what it will send at time due *)
PlainInit(ev) == [kind |-> ev.kind, d |-> ev.d, st |-> <<>>, due |-> Forever, at |-> 0]
DueTime(m) == IF ~IsHybrid(m) THEN m.due
              ELSE IF m.missed # <<>> THEN m.at ELSE IF m.tau >= Forever THEN Forever ELSE m.at + m.tau
(* Times are exact if those of all hybrid models are: an event at a time that is not also sets the clocks of those that get its output *)
NetExact(s) == \A u \in DOMAIN s.h : IsHybrid(s.h[u]) => s.h[u].sl = 0
NetSl(s) == IF NetExact(s) THEN 0 ELSE 12
NetMin(S) == CHOOSE t \in S : \A v \in S : t <= v
FirstDue(s) == NetMin({DueTime(s.h[u]) : u \in DOMAIN s.h})

(* The value v reaches model u *)
RECURSIVE Give(_, _, _)
Give(s, u, v) ==
    LET s1 == [s EXCEPT !.box[u] = Append(@, v)]
    IN IF s.h[u].kind # "filter" \/ v >= 20000 THEN s1
       ELSE FoldLeft(LAMBDA r, w : Give(r, w, v + 10000), s1, s.to[u])
Send(s, u, y) == FoldLeft(LAMBDA r, v : FoldLeft(LAMBDA q, w : Give(q, w, v), r, s.to[u]), s, y)

StepBad(s, ev) ==
    LET f == FirstDue(s) IN
    (IF s.on THEN {"n-phase"} ELSE {})
    \cup (IF ev.set < 0 THEN IF Abs(ev.t - f) <= NetSl(s) THEN {} ELSE {"n-time"}
          ELSE IF ev.t = ev.set THEN {} ELSE {"n-time"})
    \cup UNION {HybridBad(s.h[u], [e |-> "Step", t |-> ev.t]) : u \in {v \in DOMAIN s.h : IsHybrid(s.h[v])}}
StepDo(s, ev) ==
    LET s1 == [s EXCEPT !.now = ev.t, !.on = TRUE, !.outed = {}, !.moved = {},
                        !.box = [u \in DOMAIN s.box |-> <<>>],
                        !.h = [u \in DOMAIN s.h |-> IF IsHybrid(s.h[u]) THEN HybridDo(s.h[u], [e |-> "Step", t |-> ev.t]) ELSE s.h[u]]]
    IN FoldLeft(LAMBDA r, x : Give(r, x[1], x[2]), s1, ev.x)
(* The models that have an event of their own now and have not changed yet, and those that may have one *)
Due(s) == {u \in DOMAIN s.h \ s.moved : NetExact(s) /\ DueTime(s.h[u]) = s.now}
MayDue(s) == {u \in DOMAIN s.h \ s.moved : Abs(DueTime(s.h[u]) - s.now) <= NetSl(s)}
EndBad(s, ev) ==
    (IF s.on THEN {} ELSE {"n-phase"})
    \cup (IF ev.t = s.now THEN {} ELSE {"n-time"})
    \cup (IF \A u \in DOMAIN s.h : (u \in Due(s) \cup s.outed \/ s.box[u] # <<>>) <=> u \in s.moved THEN {} ELSE {"n-missing"})

(* What a model is asked to do in a step *)
OutRule(s, u) ==
    (IF ~s.on \/ s.moved # {} THEN {"n-phase"} ELSE {})
    \cup (IF u \in s.outed THEN {"n-again"} ELSE {})
    \cup (IF u \notin MayDue(s) THEN {"n-time"} ELSE {})
MoveRule(s, u, k, x) ==
    (IF ~s.on THEN {"n-phase"} ELSE {})
    \cup (IF u \in s.moved THEN {"n-again"} ELSE {})
    \cup (IF Due(s) \subseteq s.outed THEN {} ELSE {"n-early"})
    \cup (IF Bag(x) = Bag(s.box[u]) THEN {} ELSE {"n-input"})
    \cup (IF (k = "int") <=> (u \in s.outed /\ s.box[u] = <<>>) THEN {} ELSE {"n-kind"})
    \cup (IF (k = "conf") <=> (u \in s.outed /\ s.box[u] # <<>>) THEN {} ELSE {"n-kind"})

(* Relays and filters *)
PlainBad(s, u, ev) ==
    LET m == s.h[u] IN
    CASE ev.e = "rOut" -> OutRule(s, u) \cup (IF ev.y = <<FoldLeft(LAMBDA a, b : (a + b) % 1000, 0, m.st)>> THEN {} ELSE {"n-value"})
      [] ev.e = "rInt" -> MoveRule(s, u, "int", <<>>)
      [] ev.e = "rConf" -> MoveRule(s, u, "conf", ev.x)
      [] ev.e = "rExt" -> MoveRule(s, u, "ext", ev.x) \cup (IF Abs(ev.dt - (s.now - m.at)) <= NetSl(s) THEN {} ELSE {"n-elapsed"})
      [] OTHER -> {}
PlainDo(s, u, ev) ==
    LET m == s.h[u]
        moved(st, due) == [s EXCEPT !.h[u] = [m EXCEPT !.st = st, !.due = due, !.at = s.now], !.moved = @ \cup {u}]
        later == IF m.kind = "filter" THEN Forever ELSE s.now + m.d
    IN CASE ev.e = "rOut" -> Send([s EXCEPT !.outed = @ \cup {u}], u, ev.y)
         [] ev.e = "rInt" -> moved(<<>>, Forever)
         [] ev.e = "rConf" -> moved(ev.x, later)
         [] ev.e = "rExt" -> moved(IF m.kind = "filter" THEN <<>> ELSE m.st \o ev.x, IF m.due < Forever THEN m.due ELSE later)
         [] OTHER -> s

HybridNetBad(s, ev) ==
    CASE ev.e = "World" -> {}
      [] ev.e = "NetStep" -> StepBad(s, ev)
      [] ev.e = "NetEnd" -> EndBad(s, ev)
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang" -> {"hang"}
      [] ~IsHybrid(s.h[ev.u]) -> PlainBad(s, ev.u, ev)
      [] OTHER -> HybridBad(s.h[ev.u], ev) \cup
            (CASE ev.e = "OutB" -> OutRule(s, ev.u)
               [] ev.e = "IntB" -> MoveRule(s, ev.u, "int", <<>>)
               [] ev.e = "ConfB" -> MoveRule(s, ev.u, "conf", ev.x)
               [] ev.e = "ExtB" -> MoveRule(s, ev.u, "ext", ev.x)
               [] OTHER -> {})
HybridNetDo(s, ev) ==
    CASE ev.e = "World" -> [s EXCEPT !.h = (ev.u :> IF ev.kind \in {"relay", "filter"} THEN PlainInit(ev) ELSE HybridInit(ev)) @@ @]
      [] ev.e = "NetStep" -> StepDo(s, ev)
      [] ev.e = "NetEnd" -> [s EXCEPT !.on = FALSE]
      [] ~IsHybrid(s.h[ev.u]) -> PlainDo(s, ev.u, ev)
      [] OTHER ->
            LET s1 == [s EXCEPT !.h[ev.u] = HybridDo(@, ev)]
            IN CASE ev.e = "OutE" -> Send([s1 EXCEPT !.outed = @ \cup {ev.u}], ev.u, ev.y)
                 [] ev.e \in {"IntE", "ConfE", "ExtE"} -> [s1 EXCEPT !.moved = @ \cup {ev.u}]
                 [] OTHER -> s1
=============================================================================

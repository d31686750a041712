-------------------------------- MODULE Devs --------------------------------
(* The simulator of discrete event models, as seen at its public interface   *)
(* and at the methods of the models and listeners that it calls.             *)
(*                                                                           *)
(* The state is one record s.  Every interaction between the simulator, its  *)
(* user, the models and the listeners is an event ev (a record with field e  *)
(* for its kind).  Bad(s, ev) is the set of rules that the event breaks in   *)
(* state s; the event is a legal step exactly if this set is empty, and then *)
(* Do(s, ev) is the next state.  DevsMC explores these transitions for small *)
(* systems and DevsTrace checks recorded executions against them.            *)
(*                                                                           *)
(* Fields of the state                                                       *)
(*   ph    phase: "build" no simulator yet, "init" constructing it, "idle"   *)
(*         between steps, "out" computing output, "ready" output computed,   *)
(*         "state" changing states, "dead" after an exception, "over" after  *)
(*         the simulator was deleted, "end" after everything was             *)
(*   mealy set of Mealy models           opins  model -> pins it may use     *)
(*   ta    model -> its current time advance                                 *)
(*   eps   smallest interval of the clock  nl  number of listeners           *)
(*   g     simulated structure           pend  changes that wait             *)
(*   rt    pin -> Route(g, pin)          np    number of pins                *)
(*   ct, root  coupled models, simulated one (0 if none)                     *)
(*   tL, tN  member -> time of last, of next event    tNext  next event time *)
(*   last  time of the end of the last step                                  *)
(*   inj   injected input                now   input used in this output     *)
(*   outs  model -> last call of its output function in this computation     *)
(*   inp   model -> final input          done  models that made a transition *)
(*   held  models that the user holds    gone  destroyed models              *)
(*   boom  a model has thrown an exception of its own                        *)
EXTENDS DevsTime, CoupledTree

MapSeq(F(_), q) == [i \in DOMAIN q |-> F(q[i])]
Cat(qs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, qs)

----------------------------------------------------------------------------
Init0(ev) ==
    [ph |-> "build", mealy |-> Range(ev.mealy), opins |-> ev.opins, ta |-> ev.ta,
     eps |-> ev.eps, nl |-> ev.nl, np |-> ev.np,
     g |-> EmptyG, pend |-> <<>>, rt |-> [p \in 1..ev.np |-> <<>>],
     ct |-> [c \in 1..ev.nc |-> NoParts], root |-> 0,
     tL |-> <<>>, tN |-> <<>>, tNext |-> Inf, last |-> Zero,
     inj |-> <<>>, now |-> <<>>, outs |-> <<>>, inp |-> <<>>, done |-> {},
     held |-> DOMAIN ev.ta, gone |-> {}, boom |-> FALSE]

Mem(s) == Members(s.g)
(* The user does not ask for a step at infinity *)
DueNow(s) == {m \in Mem(s) : s.tN[m] = s.tNext}
Pins(s) == 1..s.np
WithG(s, g) == IF g = s.g THEN s ELSE [s EXCEPT !.g = g, !.rt = [p \in Pins(s) |-> Route(g, p)]]

(* Models that must be alive: held by the user, members, or part of a waiting *)
(* change or of a coupled model.                                              *)
InPend(pend) == {pend[i].m : i \in {j \in DOMAIN pend : pend[j].m # 0}}
InTree(ct) == UNION {ct[c].a \cup {e[2] : e \in ct[c].pa} : c \in DOMAIN ct}
Needed(s) == s.held \cup Mem(s) \cup InPend(s.pend) \cup InTree(s.ct)
Leaks(s) == DOMAIN s.ta \ (Needed(s) \cup s.gone)
Quiet(s) == IF Leaks(s) = {} THEN {} ELSE {"life-leak"}

----------------------------------------------------------------------------
(* Changes of structure.  Before the simulation starts they take effect at   *)
(* once, later they wait.  Requests to a coupled model change it at once and  *)
(* make the requests for its occurrences in the simulated tree.               *)
TreeOps == {"cadd", "crem", "cpa", "cdpa", "cpp", "cdpp", "ccadd", "ccrem"}
OpBad(s, ev) ==
    (IF s.ph \in {"dead", "end"} THEN {"pre"} ELSE {})
    \cup (IF ev.k \in TreeOps /\ ~EditOK(s.ct, ev) THEN {"pre"} ELSE {})
OpDo(s, ev) ==
    LET r == [k |-> ev.k, p |-> ev.p, q |-> ev.q, m |-> ev.m] IN
    IF ev.k \in TreeOps
    THEN [s EXCEPT !.ct = Edit(@, ev),
                   !.pend = IF s.root = 0 THEN @ ELSE @ \o EditOps(s.ct, s.root, ev)]
    ELSE IF s.ph = "build" THEN WithG(s, Apply(s.g, r))
    ELSE [s EXCEPT !.pend = Append(@, r)]

(* Looking at the graph: its members, and the deliveries for some pins *)
ProbeBad(s, ev) ==
    (IF Range(ev.at) # Mem(s) \/ Len(ev.at) # Cardinality(Mem(s)) THEN {"p-members"} ELSE {})
    \cup (IF \E i \in DOMAIN ev.rt : ~SameBag(ev.rt[i][2], s.rt[ev.rt[i][1]]) THEN {"p-route"} ELSE {})
    \cup (IF s.ph \in {"build", "idle", "ready"} THEN Quiet(s) ELSE {})

----------------------------------------------------------------------------
(* An exception that a model throws ends what the simulator was asked to do  *)
(* and reaches the user, recorded as one of model -1                         *)
BoomBad(s, ev) == IF s.ph \notin {"init", "out", "state"} THEN {"user-throw"} ELSE {}
UserThrow(ev) == IF ev.w # -1 THEN {"user-throw"} ELSE {}
Swallowed(s) == IF s.boom THEN {"user-throw"} ELSE {}

----------------------------------------------------------------------------
(* Creating the simulator *)
(* It may follow another simulator of the same models, which is deleted or   *)
(* will not be used any more.  Nothing that happened in the other simulation *)
(* matters, except that the models have the states that they reached and     *)
(* that requests to a graph still wait.                                      *)
NewSimBad(s, ev) == IF s.ph \notin {"build", "idle", "ready", "over"} THEN {"pre"} ELSE {}
NewSimDo(s, ev) ==
    LET g == CASE ev.kind = "graph" -> s.g
               [] ev.kind = "coupled" -> Flatten(s.ct, ev.m)
               [] ev.kind = "atomic" -> AddModel(EmptyG, ev.m)
    IN [WithG(s, g) EXCEPT !.ph = "init", !.root = IF ev.kind = "coupled" THEN ev.m ELSE 0,
                           !.pend = IF ev.kind = "graph" THEN @ ELSE <<>>,
                           !.boom = FALSE, !.last = Zero, !.inj = <<>>, !.now = <<>>, !.outs = <<>>, !.inp = <<>>, !.done = {}]
(* The user deletes the simulator and keeps the models ... *)
OverBad(s, ev) ==
    IF s.ph \notin {"idle", "ready", "dead"} \/ (s.ph = "dead" /\ ev.kind = "graph" /\ s.pend # <<>>) THEN {"pre"} ELSE {}
OverDo(s, ev) ==
    LET n == IF ev.kind = "graph" THEN s ELSE WithG([s EXCEPT !.pend = <<>>], EmptyG)
    IN [n EXCEPT !.ph = "over", !.root = 0, !.inp = <<>>, !.outs = <<>>]
(* ... and may put a model into another state *)
ReviveBad(s, ev) == IF s.ph \notin {"build", "over"} THEN {"pre"} ELSE {}
ReviveDo(s, ev) == [s EXCEPT !.ta[ev.m] = ev.ta]
Negative(s, X) == {m \in X : Neg(s.ta[m])}
ReadyBad(s, ev) ==
    (IF s.ph # "init" THEN {"pre"} ELSE {})
    \cup (IF Negative(s, Mem(s)) # {} THEN {"neg-missed"} ELSE {})
    \cup (IF ev.t # Least({Due(Zero, s.ta[m]) : m \in Mem(s)}) THEN {"init-next"} ELSE {})
    \cup Quiet(s) \cup Swallowed(s)
ReadyDo(s, ev) ==
    [s EXCEPT !.ph = "idle", !.tL = [m \in Mem(s) |-> Zero],
              !.tN = [m \in Mem(s) |-> Due(Zero, s.ta[m])], !.tNext = ev.t]

----------------------------------------------------------------------------
(* Input from outside and the choice of the next event time *)
InjectBad(s, ev) == IF s.ph \notin {"idle", "ready"} THEN {"pre"} ELSE {}
InjectDo(s, ev) == [s EXCEPT !.inj = Append(@, <<ev.p, ev.v>>)]
ClearDo(s, ev) == [s EXCEPT !.inj = <<>>]
SetNextBad(s, ev) ==
    IF s.ph \notin {"idle", "ready"} \/ Lt(ev.t, s.last) \/ (\E m \in Mem(s) : Lt(s.tN[m], ev.t))
    THEN {"pre"} ELSE {}
(* What was computed for another time is of no use now *)
SetNextDo(s, ev) == [s EXCEPT !.tNext = ev.t, !.ph = "idle"]

----------------------------------------------------------------------------
(* Computing output *)
OutBeginBad(s, ev) ==
    (IF s.ph \notin {"idle", "ready"} \/ s.tNext = Inf THEN {"pre"} ELSE {})
    \cup (IF ev.t # s.tNext THEN {"o-tnext"} ELSE {})
OutBeginDo(s, ev) ==
    [s EXCEPT !.ph = "out", !.now = s.inj, !.inj = <<>>, !.outs = <<>>, !.inp = <<>>]

(* A call of an output function.  A Mealy model may be called several times; *)
(* its last call counts and is judged when the output is complete.           *)
OutBad(s, ev) ==
    (IF s.ph # "out" THEN {"o-phase"} ELSE {})
    \cup (IF ev.m \notin Mem(s) \/ ev.m \in s.gone THEN {"life"} ELSE {})
    \cup (IF ev.m \in s.mealy THEN {} ELSE
            (IF ev.m \in Mem(s) /\ s.tN[ev.m] # s.tNext THEN {"o-imm"} ELSE {})
            \cup (IF ev.m \in DOMAIN s.outs THEN {"o-once"} ELSE {})
            \cup (IF ev.k # "int" THEN {"o-kind"} ELSE {}))
OutDo(s, ev) == [s EXCEPT !.outs = (ev.m :> ev) @@ @]

(* Deliveries <<model, pin, value>> of values <<pin, value>> *)
Deliver(s, vs) ==
    Cat(MapSeq(LAMBDA v : MapSeq(LAMBDA r : <<r[2], r[1], v[2]>>, s.rt[v[1]]), vs))
Receivers(ds) == {ds[i][1] : i \in DOMAIN ds}
Mine(ds, m) == MapSeq(LAMBDA d : <<d[2], d[3]>>, SelectSeq(ds, LAMBDA d : d[1] = m))

(* The least set of Mealy models that includes L0 and the Mealy models that  *)
(* its members send to, with dl the deliveries of each model's output        *)
RECURSIVE LiveFrom(_, _, _)
LiveFrom(s, dl, L) ==
    LET L1 == L \cup UNION {Receivers(dl[m]) \cap s.mealy : m \in L \cap DOMAIN dl}
    IN IF L1 = L THEN L ELSE LiveFrom(s, dl, L1)

(* All models that can be reached from X in relation R, a function to sets *)
RECURSIVE Star(_, _)
Star(R, X) == LET Y == X \cup UNION {R[x] : x \in X} IN IF Y = X THEN X ELSE Star(R, Y)
OnCycle(R) == {x \in DOMAIN R : x \in Star(R, R[x])}
(* Mealy models that could take part in a loop of Mealy models *)
MealyLoop(s) ==
    LET M == Mem(s) \cap s.mealy
    IN OnCycle([m \in M |-> M \cap UNION {{s.rt[p][i][2] : i \in DOMAIN s.rt[p]} : p \in Range(s.opins[m])}])

(* Everything that follows from the calls of output functions *)
Facts(s) ==
    LET due    == DueNow(s)
        moore  == SetToSeq((due \ s.mealy) \cap DOMAIN s.outs)
        mealyc == Mem(s) \cap s.mealy
        dl     == [m \in mealyc \cap DOMAIN s.outs |-> Deliver(s, s.outs[m].yb)]
        base   == Deliver(s, s.now) \o Cat(MapSeq(LAMBDA m : Deliver(s, s.outs[m].yb), moore))
        live   == LiveFrom(s, dl, (due \cap s.mealy) \cup (Receivers(base) \cap s.mealy))
        lives  == SetToSeq(live \cap DOMAIN s.outs)
        all    == base \o Cat(MapSeq(LAMBDA m : dl[m], lives))
    IN [due |-> due, live |-> live,
        inp |-> [m \in Receivers(all) |-> Mine(all, m)],
        cycle |-> OnCycle([m \in live |-> IF m \in DOMAIN dl THEN Receivers(dl[m]) \cap live ELSE {}]),
        seen |-> Cat(MapSeq(LAMBDA m : MapSeq(LAMBDA y : <<m, y[1], y[2], s.tNext>>, s.outs[m].yb),
                            moore \o lives))]
InputOf(f, m) == IF m \in DOMAIN f.inp THEN f.inp[m] ELSE <<>>
MealyKind(f, m) == IF m \notin f.due THEN "ext" ELSE IF m \in DOMAIN f.inp THEN "conf" ELSE "int"
MealyBad(s, f, m) ==
    IF m \notin DOMAIN s.outs THEN {"o-mealy-missing"} ELSE
        LET c == s.outs[m] IN
        (IF c.k # MealyKind(f, m) THEN {"o-mealy-kind"} ELSE {})
        \cup (IF ~SameBag(c.xb, InputOf(f, m)) THEN {"o-mealy-input"} ELSE {})
        \cup (IF c.k = "ext" /\ c.el # Sub(s.tNext, s.tL[m]) THEN {"o-mealy-elapsed"} ELSE {})

OutEndBad(s, ev) ==
    IF s.ph # "out" THEN {"pre"} ELSE
    LET f == Facts(s) IN
    (IF (f.due \ s.mealy) \ DOMAIN s.outs # {} THEN {"o-missing"} ELSE {})
    \cup UNION {MealyBad(s, f, m) : m \in f.live}
    \cup (IF f.cycle # {} THEN {"mealy-cycle"} ELSE {})
    \cup (IF \E i \in 1..s.nl : ~SameBag(ev.lo[i], f.seen) THEN {"l-out"} ELSE {})
    \cup (IF ev.t # s.tNext THEN {"o-tnext"} ELSE {})
    \cup Quiet(s) \cup Swallowed(s)
OutEndDo(s, ev) == [s EXCEPT !.ph = "ready", !.inp = Facts(s).inp]

OutThrowBad(s, ev) ==
    (IF s.ph # "out" THEN {"pre"} ELSE {})
    \cup (IF s.boom THEN UserThrow(ev) ELSE IF ~ev.ad \/ ev.w \notin MealyLoop(s) THEN {"mealy-throw"} ELSE {})

----------------------------------------------------------------------------
(* Changing states *)
StBeginBad(s, ev) == IF s.ph # "ready" THEN {"pre"} ELSE {}
StBeginDo(s, ev) == [s EXCEPT !.ph = "state", !.done = {}]

Active(s) == DueNow(s) \cup DOMAIN s.inp
DeltaKind(s, m) == IF m \notin DOMAIN s.inp THEN "int" ELSE IF s.tN[m] = s.tNext THEN "conf" ELSE "ext"
DeltaBad(s, ev) ==
    IF s.ph # "state" THEN {"d-phase"}
    ELSE IF ev.m \notin Mem(s) \/ ev.m \in s.gone THEN {"life"}
    ELSE IF ev.m \notin Active(s) THEN {"d-active"}
    ELSE (IF ev.m \in s.done THEN {"d-once"} ELSE {})
         \cup (IF ev.k # DeltaKind(s, ev.m) THEN {"d-kind"} ELSE {})
         \cup (IF ~SameBag(ev.xb, IF ev.m \in DOMAIN s.inp THEN s.inp[ev.m] ELSE <<>>)
               THEN {"d-input"} ELSE {})
         \cup (IF ev.k = "ext" /\ ev.el # Sub(s.tNext, s.tL[ev.m]) THEN {"d-elapsed"} ELSE {})
DeltaDo(s, ev) == [s EXCEPT !.done = @ \cup {ev.m}, !.ta[ev.m] = ev.ta]

(* The end of a step: transitions are complete, waiting changes are applied  *)
AfterStep(s) ==
    LET t  == Add(s.tNext, s.eps)
        g  == ApplyAll(s.g, s.pend)
        jn == Joined(s.g, s.pend)
        M  == Members(g)
        new == jn \cup s.done
    IN [WithG(s, g) EXCEPT
            !.ph = "idle", !.pend = <<>>, !.last = t,
            !.tL = [m \in M |-> IF m \in new THEN t ELSE s.tL[m]],
            !.tN = [m \in M |-> IF m \in new THEN Due(t, s.ta[m]) ELSE s.tN[m]],
            !.tNext = Least({IF m \in new THEN Due(t, s.ta[m]) ELSE s.tN[m] : m \in M}),
            !.outs = <<>>, !.inp = <<>>, !.now = <<>>, !.done = {}]
(* What listeners must be told about the transitions of this step *)
SeenIn(s) == Cat(MapSeq(LAMBDA m : MapSeq(LAMBDA x : <<m, x[1], x[2], s.tNext>>, s.inp[m]),
                        SetToSeq(DOMAIN s.inp)))
SeenSt(s) == MapSeq(LAMBDA m : <<m, s.tNext, 1>>, SetToSeq(s.done))
Adds(pend) == {pend[i].m : i \in {j \in DOMAIN pend : pend[j].k = "add"}}
StEndBad(s, ev) ==
    IF s.ph # "state" THEN {"pre"} ELSE
    LET n == AfterStep(s) IN
    (IF DueNow(s) \ s.done # {} THEN {"d-missing-due"} ELSE {})
    \cup (IF DOMAIN s.inp \ (DueNow(s) \cup s.done) # {} THEN {"d-missing-in"} ELSE {})
    \cup (IF Negative(s, s.done \cup (Joined(s.g, s.pend))) # {} THEN {"neg-missed"} ELSE {})
    \cup (IF ev.r # Add(s.tNext, s.eps) THEN {"s-ret"} ELSE {})
    \cup (IF ev.t # n.tNext THEN (IF s.pend = <<>> THEN {"s-next"} ELSE {"s-next-dyn"}) ELSE {})
    \cup (IF \E i \in 1..s.nl : ~SameBag(ev.li[i], SeenIn(s)) THEN {"l-in"} ELSE {})
    \cup (IF \E i \in 1..s.nl : ~SameBag(ev.ls[i], SeenSt(s)) THEN {"l-st"} ELSE {})
    \cup (IF ~(Range(ev.tac) \subseteq (Mem(s) \cup Adds(s.pend))) THEN {"life"} ELSE {})
    \cup (IF s.gone \cap Needed(n) # {} THEN {"life-early"} ELSE {})
    \cup Quiet(n) \cup Swallowed(s)
StThrowBad(s, ev) ==
    (IF s.ph # "state" THEN {"pre"} ELSE {})
    \cup (IF s.boom THEN UserThrow(ev) ELSE IF ~ev.ad \/ ev.w \notin Negative(s, s.done \cup Adds(s.pend)) THEN {"neg-throw"} ELSE {})
ThrowBad(s, ev) ==
    (IF s.ph # "init" THEN {"pre"} ELSE {})
    \cup (IF s.boom THEN UserThrow(ev) ELSE IF ~ev.ad \/ ev.w \notin Negative(s, Mem(s)) THEN {"neg-throw"} ELSE {})

----------------------------------------------------------------------------
(* Lifetimes.  A model that is destroyed while waiting changes are applied    *)
(* is judged at the end of the step.                                          *)
DropDo(s, ev) == [s EXCEPT !.held = @ \ {ev.m}]
DestroyBad(s, ev) ==
    (IF ev.m \in s.gone THEN {"life-early"} ELSE {})
    \cup (IF s.ph \notin {"state", "dead", "end"} /\ ev.m \in Needed(s) THEN {"life-early"} ELSE {})
    \cup (IF ev.m \in s.held THEN {"life-early"} ELSE {})
DestroyDo(s, ev) == [s EXCEPT !.gone = @ \cup {ev.m}]
(* The user deletes the simulator, the graph and all coupled models ... *)
DelSimDo(s, ev) == [s EXCEPT !.ph = "end", !.g = EmptyG, !.pend = <<>>,
                             !.ct = [c \in DOMAIN s.ct |-> NoParts]]
(* ... and then all that is not held has been destroyed *)
EndBad(s, ev) == (IF s.ph # "end" THEN {"pre"} ELSE {}) \cup Quiet(s)

----------------------------------------------------------------------------
Bad(s, ev) ==
    CASE ev.e = "Op"       -> OpBad(s, ev)
      [] ev.e = "Probe"    -> ProbeBad(s, ev)
      [] ev.e = "NewSim"   -> NewSimBad(s, ev)
      [] ev.e = "Ready"    -> ReadyBad(s, ev)
      [] ev.e = "Throw"    -> ThrowBad(s, ev)
      [] ev.e = "Inject"   -> InjectBad(s, ev)
      [] ev.e = "Clear"    -> InjectBad(s, ev)
      [] ev.e = "SetNext"  -> SetNextBad(s, ev)
      [] ev.e = "OutBegin" -> OutBeginBad(s, ev)
      [] ev.e = "Out"      -> OutBad(s, ev)
      [] ev.e = "OutEnd"   -> OutEndBad(s, ev)
      [] ev.e = "OutThrow" -> OutThrowBad(s, ev)
      [] ev.e = "StBegin"  -> StBeginBad(s, ev)
      [] ev.e = "Delta"    -> DeltaBad(s, ev)
      [] ev.e = "StEnd"    -> StEndBad(s, ev)
      [] ev.e = "StThrow"  -> StThrowBad(s, ev)
      [] ev.e = "Drop"     -> {}
      [] ev.e = "Destroy"  -> DestroyBad(s, ev)
      [] ev.e = "DelSim"   -> {}
      [] ev.e = "Boom"     -> BoomBad(s, ev)
      [] ev.e = "Over"     -> OverBad(s, ev)
      [] ev.e = "Revive"   -> ReviveBad(s, ev)
      [] ev.e = "End"      -> EndBad(s, ev)
      [] ev.e = "Crash"    -> {"crash"}
      [] ev.e = "Hang"     -> {"hang"}

Do(s, ev) ==
    CASE ev.e = "Op"       -> OpDo(s, ev)
      [] ev.e = "NewSim"   -> NewSimDo(s, ev)
      [] ev.e = "Ready"    -> ReadyDo(s, ev)
      [] ev.e = "Inject"   -> InjectDo(s, ev)
      [] ev.e = "Clear"    -> ClearDo(s, ev)
      [] ev.e = "SetNext"  -> SetNextDo(s, ev)
      [] ev.e = "OutBegin" -> OutBeginDo(s, ev)
      [] ev.e = "Out"      -> OutDo(s, ev)
      [] ev.e = "OutEnd"   -> OutEndDo(s, ev)
      [] ev.e = "StBegin"  -> StBeginDo(s, ev)
      [] ev.e = "Delta"    -> DeltaDo(s, ev)
      [] ev.e = "StEnd"    -> AfterStep(s)
      [] ev.e \in {"Throw", "OutThrow", "StThrow"} -> [s EXCEPT !.ph = "dead"]
      [] ev.e = "Drop"     -> DropDo(s, ev)
      [] ev.e = "Destroy"  -> DestroyDo(s, ev)
      [] ev.e = "DelSim"   -> DelSimDo(s, ev)
      [] ev.e = "Boom"     -> [s EXCEPT !.boom = TRUE]
      [] ev.e = "Over"     -> OverDo(s, ev)
      [] ev.e = "Revive"   -> ReviveDo(s, ev)
      [] OTHER -> s

(* Rules about what a call was told or what a listener heard: if one of these *)
(* is broken then Do(s, ev) is still what the system should do next.          *)
DevsSoft == {"d-elapsed", "d-input", "d-kind", "d-once", "d-active", "o-kind", "o-once", "o-imm",
             "o-mealy-elapsed", "o-mealy-input", "o-mealy-kind", "l-out", "l-in", "l-st",
             "s-ret", "p-route", "p-members", "life-leak"}

(* Output of a model whose call is not needed for the output of the step, or *)
(* an event in another order, is not restricted by these rules.              *)
=============================================================================

------------------------------- MODULE DevsMC -------------------------------
(* Small systems, run by their specification.  Devs says which events are     *)
(* legal; here models with a fixed behaviour are put on top of it, so that    *)
(* what the simulator does follows from the requests of the user.  All        *)
(* sequences of K requests are tried for each configuration of a family.      *)
(* Checked: the events that follow are legal (the specification does not      *)
(* contradict itself), and the laws at the end.  Each sequence is printed as  *)
(* a script for the harness.                                                  *)
(*                                                                            *)
(* A configuration has the fields                                             *)
(*   nm, np   number of models, pins     mealy  set of Mealy models           *)
(*   opins    model -> output pins       beh    model -> answers, a sum of 1  *)
(*                                              internal 2 confluent 4 external *)
(*   ta       model -> time advances     build  requests before the start     *)
(*   at       sequence of <<model, n, request>>: made in the n-th transition  *)
(*   boom     set of <<model, n>>: throws an exception in the n-th transition *)
(*   eps      smallest interval of the clock                                  *)
EXTENDS Devs
CONSTANTS K, Family, Size
VARIABLES cfg, s, calls, bad, h, n
vars == <<cfg, s, calls, bad, h, n>>

Rq(k, p, q, m) == [e |-> "Op", k |-> k, p |-> p, q |-> q, m |-> m, c |-> 0, d |-> 0]
Add1(m) == Rq("add", 0, 0, m)
PA(p, m) == Rq("pa", p, 0, m)
PP(p, q) == Rq("pp", p, q, 0)
T(x) == <<x, 0>>
Str(x) == ToString(x)
TStr(t) == IF t = Inf THEN "i" ELSE IF t[2] = 0 THEN Str(t[1]) ELSE Str(t[1]) \o "." \o Str(t[2])
Text(F(_), q, sep) == FoldLeft(LAMBDA a, x : IF a = "" THEN F(x) ELSE a \o sep \o F(x), "", q)
Line(o) == o.k \o (IF o.p # 0 THEN " " \o Str(o.p) ELSE "") \o (IF o.q # 0 THEN " " \o Str(o.q) ELSE "")
               \o (IF o.m # 0 THEN " " \o Str(o.m) ELSE "")
Number(q) == [i \in DOMAIN q |-> i]
Header(c) ==
    "n " \o Str(c.nm) \o " " \o Str(c.np) \o " 0;"
    \o Text(LAMBDA m : "m " \o Str(m) \o (IF m \in c.mealy THEN " 1 " ELSE " 0 ") \o Str(c.beh[m]) \o " "
                       \o (IF c.opins[m] = <<>> THEN "-" ELSE Text(Str, c.opins[m], ",")) \o " "
                       \o Text(TStr, c.ta[m], ",") \o ";", Number(c.beh), "")
    \o Text(LAMBDA a : "boom " \o Str(a[1]) \o " " \o Str(a[2]) \o ";", SetToSeq(c.boom), "")
    \o Text(LAMBDA a : "at " \o Str(a[1]) \o " " \o Str(a[2]) \o " " \o Line(a[3]) \o ";", c.at, "")
    \o "begin;" \o Text(LAMBDA o : Line(o) \o ";", c.build, "") \o "new graph 0;"

----------------------------------------------------------------------------
(* Families of configurations *)
TaSets == IF Size = 1 THEN {<<T(1), T(1), T(2)>>, <<T(2), T(0), T(1)>>, <<Inf, T(1)>>}
          ELSE {<<T(1), T(1), T(2)>>, <<T(2), T(0), T(1)>>, <<Inf, T(1)>>, <<T(0), T(2), T(2)>>, <<T(1), Inf, T(1)>>, <<T(3), T(1), T(1)>>}
Base(nm, np) == [nm |-> nm, np |-> np, mealy |-> {}, opins |-> [m \in 1..nm |-> <<>>], beh |-> [m \in 1..nm |-> 7],
                 ta |-> [m \in 1..nm |-> <<Inf>>], build |-> <<>>, at |-> <<>>, boom |-> {}, eps |-> Zero]
(* Two models, the first one possibly a Mealy model, that send to each other, *)
(* one of them or none.  Pins 1 and 2 are inputs, 3 and 4 outputs.            *)
Pairs == {[Base(2, 4) EXCEPT !.mealy = me, !.opins = << <<3>>, <<4>> >>, !.ta = <<a, b>>, 
                             !.build = <<Add1(1), Add1(2), PA(1, 1), PA(2, 2)>> \o l] :
            me \in {{}, {1}}, a \in TaSets, b \in TaSets,
            l \in {<<>>, <<PP(3, 2)>>, <<PP(3, 2), PP(4, 1)>>}}
SdPairs == {[c EXCEPT !.eps = <<0, 1>>] : c \in Pairs}
(* A source, a Mealy model and a sink, all with input from outside *)
Chains == {[Base(3, 5) EXCEPT !.mealy = {2}, !.opins = << <<4>>, <<5>>, <<>> >>, !.ta = <<a, b, c>>,
                              !.beh = <<1, be, 0>>,
                              !.build = <<Add1(1), Add1(2), Add1(3), PA(1, 1), PA(2, 2), PA(3, 3), PP(4, 2), PP(5, 3)>>] :
            a \in TaSets, b \in TaSets, c \in {<<Inf, Inf>>, <<T(2), T(2)>>}, be \in {7, 5}}
(* An executive that changes the structure in its first transition, a member *)
(* and a model that is outside.  Two requests out of all that make sense.     *)
DynRq == {Rq(k, 0, 0, m) : k \in {"add", "rem"}, m \in 1..3}
    \cup {Rq(k, 1, 0, m) : k \in {"pa", "dpa"}, m \in 2..3} \cup {Rq("rp", 1, 0, 0), Rq("pp", 2, 1, 0), Rq("dpp", 2, 1, 0)}
DynBuild == <<Add1(1), Add1(2), PA(1, 2), PP(2, 1)>>
DynG(os) == ApplyAll(EmptyG, DynBuild \o os)
DynOK(os) == \A i \in DOMAIN os : os[i].k = "pa" => os[i].m \in Members(DynG(SubSeq(os, 1, i - 1)))
Dyn == {c \in {[Base(3, 2) EXCEPT !.opins = << <<1>>, <<2>>, <<2>> >>, !.ta = << <<T(1), T(1), T(1), T(1)>>, a, b>>,
                           !.build = DynBuild, !.at = << <<1, 1, x>>, <<w, 1, y>> >>] :
            a \in {<<Inf, Inf>>, <<T(1), T(2)>>, <<T(2), Inf>>}, b \in {<<Inf, T(1)>>, <<T(0), T(1)>>, <<T(2), T(1)>>},
            x \in DynRq, y \in DynRq, w \in IF Size = 1 THEN {1} ELSE {1, 2}} :
            DynOK(<<c.at[1][3], c.at[2][3]>>) /\ DynOK(<<c.at[2][3], c.at[1][3]>>)}
(* Negative time advances at each place where they are found out *)
Negs == {[Base(3, 2) EXCEPT !.opins = << <<1>>, <<2>>, <<>> >>, !.ta = <<a, b, c>>,
                            !.build = <<Add1(1), Add1(2), PA(1, 2), PP(2, 1)>>, !.at = << <<1, 1, Add1(3)>> >>] :
            a \in {<<T(1), T(1)>>, <<T(1), T(-1)>>, <<T(-1)>>}, b \in {<<T(2), T(1)>>, <<Inf, T(-2)>>, <<T(1), T(-1)>>, <<T(-1)>>},
            c \in {<<T(1)>>, <<T(-1)>>, <<Inf, T(-1)>>}}
(* Several simulations of the same models, some of which end with an exception *)
AgainTas == {<<T(1), T(1), T(2)>>, <<T(2), T(0), T(1)>>, <<T(1), T(-1)>>, <<Inf, T(1)>>}
Agains == {c \in {[Base(2, 4) EXCEPT !.mealy = me, !.opins = << <<3>>, <<4>> >>, !.ta = <<a, b>>, !.boom = x,
                                    !.build = <<Add1(1), Add1(2), PA(1, 1), PA(2, 2)>> \o l] :
             me \in {{}, {2}}, a \in AgainTas, b \in AgainTas, l \in {<<PP(3, 2)>>, <<PP(3, 2), PP(4, 1)>>},
             x \in {{}, {<<1, 1>>}, {<<2, 1>>}, {<<1, 2>>}}} :
             Size > 1 \/ c.boom = {} \/ Len(c.build) = 5}
Configs == CASE Family = "agains" -> Agains [] Family = "pairs" -> Pairs [] Family = "sdpairs" -> SdPairs [] Family = "chains" -> Chains [] Family = "dyn" -> Dyn [] Family = "negs" -> Negs

----------------------------------------------------------------------------
(* A pair of a state and the rules that were broken *)
Feed(st, ev) == IF st[2] # {} THEN st
                ELSE LET b == Bad(st[1], ev) IN IF b = {} THEN <<Do(st[1], ev), {}>> ELSE <<st[1], b>>
FeedAll(st, evs) == FoldLeft(Feed, st, evs)

Answers(k, m) == CASE k = "int" -> cfg.beh[m] % 2 = 1
                   [] k = "conf" -> (cfg.beh[m] \div 2) % 2 = 1
                   [] k = "ext" -> (cfg.beh[m] \div 4) % 2 = 1
Output(m, k, in) == IF ~Answers(k, m) THEN <<>> ELSE
    LET v == FoldLeft(LAMBDA a, x : a + (x[2] % 100) + 1, 1000 * m, in) IN MapSeq(LAMBDA p : <<p, v>>, cfg.opins[m])
OutEv(m, k, el, in) == [e |-> "Out", m |-> m, k |-> k, el |-> el, xb |-> in, yb |-> Output(m, k, in)]
MooreOuts(x) == LET q == SetToSeq(DueNow(x) \ x.mealy) IN MapSeq(LAMBDA m : OutEv(m, "int", Zero, <<>>), q)
(* The calls of the Mealy models when those in st are known; repeated until   *)
(* nothing changes, which is so because these networks have no loops          *)
MealyOuts(x) ==
    LET f == Facts(x) IN
    MapSeq(LAMBDA m : LET k == MealyKind(f, m) IN
                      OutEv(m, k, IF k = "ext" THEN Sub(x.tNext, x.tL[m]) ELSE Zero, InputOf(f, m)), SetToSeq(f.live))
RECURSIVE WithMealy(_, _)
WithMealy(x, i) ==
    IF i = 0 THEN x
    ELSE LET q == MealyOuts(x) IN
         WithMealy([x EXCEPT !.outs = [m \in {q[j].m : j \in DOMAIN q} |-> q[CHOOSE j \in DOMAIN q : q[j].m = m]]
                                      @@ [m \in DOMAIN @ \ x.mealy |-> @[m]]], i - 1)
DoOutput(st) ==
    LET a == Feed(st, [e |-> "OutBegin", t |-> st[1].tNext])
        b == FeedAll(a, MooreOuts(a[1]))
        w == WithMealy(b[1], cfg.nm)
        c == FeedAll(b, MapSeq(LAMBDA m : w.outs[m], SetToSeq(DOMAIN w.outs \cap w.mealy)))
    IN Feed(c, [e |-> "OutEnd", t |-> c[1].tNext, lo |-> <<Facts(c[1]).seen>>])
NextTa(m, cs) == LET i == cs[m] + 2 IN IF i <= Len(cfg.ta[m]) THEN cfg.ta[m][i] ELSE Inf
(* The transition of model m and the requests that it makes *)
Requests(m, i) == MapSeq(LAMBDA a : a[3], SelectSeq(cfg.at, LAMBDA a : a[1] = m /\ a[2] = i))
DeltaOf(acc, m) ==
    LET x == acc[1] k == DeltaKind(x, m) IN
    IF x.boom THEN acc
    ELSE IF <<m, calls[m] + 1>> \in cfg.boom THEN Feed(acc, [e |-> "Boom", m |-> m])
    ELSE FeedAll(acc, <<[e |-> "Delta", m |-> m, k |-> k, el |-> IF k = "ext" THEN Sub(x.tNext, x.tL[m]) ELSE Zero,
                    xb |-> IF m \in DOMAIN x.inp THEN x.inp[m] ELSE <<>>, ta |-> NextTa(m, calls)]>>
                 \o Requests(m, calls[m] + 1))
(* Requests are made in the order of the addresses of the models *)
InOrder(S) == SetToSortSeq(S, <)
DoState(st) ==
    LET a == Feed(st, [e |-> "StBegin"])
        b == FoldLeft(DeltaOf, a, InOrder(Active(a[1])))
        x == b[1]
        neg == Negative(x, x.done \cup Adds(x.pend))
    IN IF x.boom THEN Feed(b, [e |-> "StThrow", ad |-> FALSE, w |-> -1])
       ELSE IF neg # {} THEN Feed(b, [e |-> "StThrow", ad |-> TRUE, w |-> CHOOSE m \in neg : TRUE])
       ELSE Feed(b, [e |-> "StEnd", r |-> Add(x.tNext, x.eps), t |-> AfterStep(x).tNext,
                     li |-> <<SeenIn(x)>>, ls |-> <<SeenSt(x)>>, tac |-> <<>>])
\* The transition that throws is counted, too; those after it are not made
Moved(st) == [m \in DOMAIN calls |-> IF m \in Active(st) /\ (\A i \in Active(st) : i < m => <<i, calls[i] + 1>> \notin cfg.boom) THEN calls[m] + 1 ELSE calls[m]]

Start0(c) == Init0([mealy |-> SetToSeq(c.mealy), opins |-> c.opins, ta |-> [m \in 1..c.nm |-> c.ta[m][1]],
                    eps |-> c.eps, nl |-> 1, np |-> c.np, nc |-> 0])
NewSim(st) ==
    LET a == Feed(st, [e |-> "NewSim", kind |-> "graph", m |-> 0])
        neg == Negative(a[1], Mem(a[1]))
    IN IF neg # {} THEN Feed(a, [e |-> "Throw", ad |-> TRUE, w |-> CHOOSE m \in neg : TRUE])
       ELSE Feed(a, [e |-> "Ready", t |-> Least({Due(Zero, a[1].ta[m]) : m \in Mem(a[1])})])
Start(c) == NewSim(FeedAll(<<Start0(c), {}>>, c.build))

Init == /\ cfg \in Configs /\ n = 0 /\ h = "" /\ calls = [m \in 1..cfg.nm |-> 0]
        /\ LET st == Start(cfg) IN s = st[1] /\ bad = st[2]
Set(st) == s' = st[1] /\ bad' = st[2]
Say(x) == h' = h \o x \o ";"
Steppable == s.ph \in {"idle", "ready"} /\ s.tNext # Inf
Output1 == Steppable /\ Set(DoOutput(<<s, {}>>)) /\ Say("out") /\ UNCHANGED calls
State1 == s.ph = "ready" /\ Set(DoState(<<s, {}>>)) /\ calls' = Moved(s) /\ Say("st")
Step1 == Steppable /\ LET o == DoOutput(<<s, {}>>) IN
         /\ Set(DoState(o)) /\ calls' = Moved(o[1]) /\ \E w \in {"step", "exec"} : (w = "exec" => n % 2 = 0) /\ Say(w)
Inject1 == /\ s.ph \in {"idle", "ready"} /\ Len(s.inj) < 2
           /\ \E p \in 1..(IF cfg.np > 2 THEN cfg.nm ELSE 2) :
              Set(Feed(<<s, {}>>, [e |-> "Inject", p |-> p, v |-> 10 * p + n])) /\ Say("inj " \o Str(p) \o " " \o Str(10 * p + n))
           /\ UNCHANGED calls
Clear1 == s.inj # <<>> /\ s.ph \in {"idle", "ready"} /\ Set(Feed(<<s, {}>>, [e |-> "Clear"])) /\ Say("clr") /\ UNCHANGED calls
SetNext1 == /\ s.ph \in {"idle", "ready"}
            /\ \E d \in 0..2 : LET t == <<s.last[1] + d, IF d = 0 THEN s.last[2] ELSE 0>> IN
               /\ t # s.tNext /\ \A m \in Mem(s) : ~Lt(s.tN[m], t)
               /\ Set(Feed(<<s, {}>>, [e |-> "SetNext", t |-> t])) /\ Say("set " \o TStr(t))
            /\ UNCHANGED calls
\* Another simulation: the old simulator is deleted afterwards, or before; then a model may be put into another state
Leave1 == s.ph \in {"idle", "ready"} /\ Set(NewSim(<<s, {}>>)) /\ Say("new graph 0") /\ UNCHANGED calls
Over(x) == Feed(<<x, {}>>, [e |-> "Over", kind |-> "graph"])
Over1 == /\ s.ph \in {"idle", "ready", "dead"} /\ s.pend = <<>>
         /\ \/ Set(NewSim(Over(s))) /\ Say("over;new graph 0")
            \/ \E m \in Mem(s), t \in {T(1), Inf} :
               /\ Neg(s.ta[m]) \/ (t = T(1) /\ m = 1)
               /\ Set(NewSim(Feed(Over(s), [e |-> "Revive", m |-> m, ta |-> t])))
               /\ Say("over;rev " \o Str(m) \o " " \o TStr(t) \o ";new graph 0")
         /\ UNCHANGED calls
Next == /\ n < K /\ bad = {} /\ n' = n + 1 /\ UNCHANGED cfg
        /\ (Step1 \/ (Family \in {"pairs", "sdpairs", "chains", "agains"} /\ (Output1 \/ State1 \/ Inject1 \/ Clear1 \/ SetNext1))
            \/ (Family = "agains" /\ (Leave1 \/ Over1))
            \/ (Family = "dyn" /\ n = 1 /\ Inject1))
Spec == Init /\ [][Next]_vars
Emit == (n = K \/ ~ENABLED Next) => PrintT("SCRIPT " \o Header(cfg) \o h \o (IF n = K THEN (IF Family = "dyn" THEN "inj 1 50;" ELSE "") \o "step;probe;quit;" ELSE "quit;"))
----------------------------------------------------------------------------
Legal == bad = {}
Running == s.ph \in {"idle", "ready"}
(* The next event is not in the past and no event has been passed over *)
Clocks == Running => /\ Le(s.last, s.tNext)
                     /\ \A m \in Mem(s) : Le(s.tL[m], s.last) /\ Le(s.tNext, s.tN[m]) /\ Le(s.tL[m], s.tN[m])
(* Every schedule is that of the last transition *)
Kept == Running => \A m \in Mem(s) : s.tN[m] = Due(s.tL[m], s.ta[m])
Same == Running => DOMAIN s.tL = Mem(s) /\ DOMAIN s.tN = Mem(s)
Shape == StructureOK(s.g)
(* Computing the output once more gives the same, if no input is injected *)
Again == s.ph = "ready" /\ s.now = <<>> /\ s.inj = <<>> =>
         LET r == DoOutput(<<s, {}>>) IN r[2] = {} /\ r[1].inp = s.inp /\ r[1].outs = s.outs
=============================================================================

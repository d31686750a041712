------------------------------- MODULE Hybrid --------------------------------
(* A hybrid model: an atomic model whose state is continuous and whose events *)
(* are time events, state events (sign changes of event functions) and input. *)
(*                                                                            *)
(* The state vector of the system that the harness simulates is               *)
(*   q = <<clock, x, v, a, tev, y, b>>                                        *)
(* with d clock/dt = 1, dx/dt = v and all else constant between events; y is  *)
(* an algebraic variable that postStep sets to x + clock.  A time event is due *)
(* when the clock reaches tev.  The event functions are z1 = x - a and        *)
(* z2 = clock - b; nz of them are used.  Numbers are multiples of 1/4096,     *)
(* except v.  sl is the precision of comparisons (0 if all numbers are exact).*)
(*                                                                            *)
(* The event finder sees a state event when the sign of an event function     *)
(* differs from that at the last state, and reports it at most tol later.     *)
(*                                                                            *)
(* Events recorded at the interface of the atomic model are Ta and pairs that *)
(* enclose a call: OutB OutE, IntB IntE, ExtB ExtE, ConfB ConfE; the calls of *)
(* the system inside it are sPost, sOut, sInt, sExt, sConf.  They are         *)
(* collected in calls and judged at the end of the enclosing call.            *)
(* State fields                                                               *)
(*   q, z   state and signs of event functions after the last transition      *)
(*   since  time since the last discrete event                                *)
(*   missed output of an event that was found at an input, still to be sent   *)
(*   tau    time advance that was reported last                               *)
(*   due    what the current output was computed for: flags and state         *)
(*   max    longest step of the solver                                        *)
(*   sim    are the calls made by a simulator?  Then now is the time of the     *)
(*          current step and at that of the last transition, or when the model  *)
(*          joined (Join) the simulation                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a < b THEN b ELSE a
Forever == 400000000
Unit == 4096
Near(s, a, b) == Abs(a - b) <= s.sl
NearQ(s, q, r) == \A i \in DOMAIN q : Near(s, q[i], r[i])
Flow(q, dt) == LET c == q[1] + dt  x == q[2] + q[3] * dt
               IN <<c, x, q[3], q[4], q[5], x + c, q[7]>>
TimeLeft(q) == IF q[5] >= Forever THEN Forever ELSE q[5] - q[1]

(* Which event functions does the finder take as changed? *)
Differs(s, z0, z1) ==
    CASE s.kind = "mock" -> z0 # 0 /\ z0 # z1
      [] s.kind = "fast" -> z0 * z1 <= 0
      [] OTHER -> z0 # z1
Changed(s, z) == {i \in 1..s.nz : Differs(s, s.z[i], z[i])}
(* Time until the first change, rounded up *)
Until(z, rate) == IF rate = 0 THEN Forever ELSE LET d == -z * (IF rate < 0 THEN -1 ELSE 1)
                                                   r == Abs(rate)
                                               IN IF d < 0 THEN Forever ELSE (d + r - 1) \div r
ZAt(s, i) == IF i = 1 THEN Until(s.q[2] - s.q[4], s.q[3]) ELSE Until(s.q[1] - s.q[7], 1)
FirstChange(s) == LET S == {ZAt(s, i) : i \in {j \in 1..s.nz : s.z[j] # 0}}
                  IN IF S = {} THEN Forever ELSE CHOOSE t \in S : \A u \in S : t <= u

Calls(s, k) == SelectSeq(s.calls, LAMBDA c : c.e = k)
Only(s, ks) == \A i \in DOMAIN s.calls : s.calls[i].e \in ks
Bag(q) == [x \in {q[i] : i \in DOMAIN q} |-> Cardinality({i \in DOMAIN q : q[i] = x})]
(* Flags are recorded as a sequence of length nz + 1, the last for time events *)
Flags(s, S, time) == [i \in 1..(s.nz + 1) |-> IF i <= s.nz THEN i \in S ELSE time]
NoFlags(s) == Flags(s, {}, FALSE)
Has(f) == \E i \in DOMAIN f : f[i]

HybridInit(ev) ==
    [nz |-> ev.nz, tol |-> ev.tol, sl |-> ev.sl, kind |-> ev.kind, q |-> ev.q, z |-> ev.z, since |-> 0,
     missed |-> <<>>, tau |-> -1, due |-> [f |-> <<>>, q |-> <<>>], ph |-> "new", calls |-> <<>>, dt |-> 0, x |-> <<>>,
     del |-> <<>>, adopt |-> IF "adopt" \in DOMAIN ev THEN {ev.adopt[i] : i \in DOMAIN ev.adopt} ELSE {"sys", "solver", "finder"},
     max |-> IF "max" \in DOMAIN ev THEN ev.max ELSE Forever, sim |-> FALSE, now |-> 0, at |-> 0]

(* ----------------------------------------------------------------------- *)
TaBad(s, ev) ==
    IF s.missed # <<>> THEN IF ev.t = 0 THEN {} ELSE {"h-missed"}
    ELSE IF ev.t < 0 \/ ev.t > s.max + s.sl \/ ev.t > Max(TimeLeft(s.q), 0) + s.sl \/ ev.t > FirstChange(s) + s.tol + s.sl THEN {"h-ta"} ELSE {}

(* The possible flags for an event at the end of the step, in state q with signs z *)
TimeDue(s) ==
    LET d == TimeLeft(s.q) - s.tau
    IN IF s.missed # <<>> THEN {TimeLeft(s.q) <= 0}
       ELSE IF s.sl = 0 \/ Abs(d) > s.sl \/ s.tau = 0 THEN {d <= 0} ELSE BOOLEAN
EventFlags(s, z) ==
    \* With missed output only an event that is due at once happens in this step
    IF s.missed # <<>> /\ TimeLeft(s.q) > 0 THEN {NoFlags(s)}
    ELSE {Flags(s, Changed(s, z), t) : t \in TimeDue(s)}

OutEndBad(s, ev) ==
    LET outs == Calls(s, "sOut")  posts == Calls(s, "sPost")
        qe == IF s.missed # <<>> THEN s.q ELSE Flow(s.q, s.tau)
        here == {i \in DOMAIN posts : NearQ(s, posts[i].r, qe)}
        z == IF s.missed # <<>> THEN s.z ELSE posts[CHOOSE i \in here : TRUE].z
    IN (IF Only(s, {"sOut", "sPost"}) THEN {} ELSE {"h-phase"})
       \cup (IF s.missed = <<>> /\ here = {} THEN {"h-post"}
             ELSE LET ok == EventFlags(s, z)
                      \* a finder can only report an event in an empty step if z is zero at its start
                      want == {f \in ok : Has(f)}
                  IN (IF Len(outs) > 1 \/ (Len(outs) = 0 /\ NoFlags(s) \notin ok) \/ (Len(outs) = 1 /\ want = {}) THEN {"h-out"} ELSE {})
                     \cup (IF Len(outs) = 1 /\ want # {} /\ outs[1].f \notin want THEN {"h-flags"} ELSE {})
                     \cup (IF Len(outs) = 1 /\ ~NearQ(s, outs[1].q, qe) THEN {"h-state"} ELSE {}))
       \cup (IF Bag(ev.y) # Bag(s.missed \o (IF Len(outs) > 0 THEN outs[1].y ELSE <<>>)) THEN {"h-value"} ELSE {})
OutEndDo(s, ev) ==
    LET outs == Calls(s, "sOut")
        qe == IF s.missed # <<>> THEN s.q ELSE Flow(s.q, s.tau)
    IN [s EXCEPT !.ph = "out", !.due = [f |-> IF Len(outs) = 1 THEN outs[1].f ELSE NoFlags(s),
                                         q |-> IF Len(outs) = 1 THEN outs[1].q ELSE qe]]

(* The state after a transition that ended with call c of the system *)
After(s, ev, c) == IF ev.q = c.r THEN {} ELSE {"h-state"}

IntEndBad(s, ev) ==
    LET ints == Calls(s, "sInt") IN
    (IF s.ph = "out" THEN {} ELSE {"pre"})
    \cup (IF Only(s, {"sInt", "sPost"}) THEN {} ELSE {"h-phase"})
    \cup (IF Has(s.due.f)
          THEN (IF Len(ints) # 1 THEN {"h-int"}
                ELSE (IF ints[1].f # s.due.f THEN {"h-flags"} ELSE {})
                     \cup (IF ~NearQ(s, ints[1].q, s.due.q) THEN {"h-state"} ELSE {})
                     \cup After(s, ev, ints[1]))
               \cup (IF ~ev.hap THEN {"h-happened"} ELSE {})
          ELSE (IF ints # <<>> THEN {"h-int"} ELSE {})
               \cup (IF ~NearQ(s, ev.q, s.due.q) THEN {"h-state"} ELSE {})
               \cup (IF s.missed = <<>> /\ ev.hap THEN {"h-happened"} ELSE {})
               \* Only a step that ends with an event can be empty
               \cup (IF s.missed = <<>> /\ s.tau = 0 /\ s.sl = 0 THEN {"h-ta"} ELSE {}))
Settle(s, ev, since) == [s EXCEPT !.ph = "idle", !.q = ev.q, !.z = ev.z, !.since = since, !.missed = <<>>, !.tau = -1, !.at = s.now]
IntEndDo(s, ev) ==
    Settle(s, ev, IF Has(s.due.f) \/ s.missed # <<>> THEN 0 ELSE s.since + s.tau)

SameX(s, x) == Bag(x) = Bag(s.x)
ExtOK(s, c, el) ==
    (IF ~Near(s, c.el, el) THEN {"h-elapsed"} ELSE {}) \cup (IF ~SameX(s, c.x) THEN {"h-input"} ELSE {})

ExtEndBad(s, ev) ==
    LET exts == Calls(s, "sExt")  confs == Calls(s, "sConf")  outs == Calls(s, "sOut")  posts == Calls(s, "sPost") IN
    (IF s.missed = <<>> /\ s.tau >= 0 /\ s.dt < s.tau + s.sl THEN {} ELSE {"pre"})
    \cup (IF Only(s, {"sExt", "sConf", "sOut", "sPost"}) THEN {} ELSE {"h-phase"})
    \cup (IF Len(exts) + Len(confs) # 1 THEN {"h-ext"}
          ELSE IF Len(exts) = 1
          THEN LET c == exts[1] IN
               (IF outs # <<>> THEN {"h-out"} ELSE {})
               \cup (IF ~NearQ(s, c.q, Flow(s.q, s.dt)) THEN {"h-extstate"} ELSE {})
               \cup (IF ~\E i \in DOMAIN posts : posts[i].r = c.q THEN {"h-post"} ELSE {})
               \cup (IF Changed(s, c.z) # {} /\ s.dt > 0 THEN {"h-miss"} ELSE {})
               \cup ExtOK(s, c, s.since + s.dt) \cup After(s, ev, c)
          ELSE LET c == confs[1]  h == c.q[1] - s.q[1] IN
               (IF Changed(s, c.z) = {} \/ h > s.dt + s.sl \/ h < s.dt - s.tol - s.sl THEN {"h-miss"} ELSE {})
               \cup (IF ~NearQ(s, c.q, Flow(s.q, h)) THEN {"h-extstate"} ELSE {})
               \cup (IF c.f # Flags(s, Changed(s, c.z), FALSE) THEN {"h-missflags"} ELSE {})
               \cup (IF ~SameX(s, c.x) THEN {"h-input"} ELSE {})
               \cup (IF Len(outs) # 1 \/ (Len(outs) = 1 /\ (outs[1].f # c.f \/ outs[1].q # c.q)) THEN {"h-missed"} ELSE {})
               \cup (IF ~\E i \in DOMAIN posts : posts[i].r = c.q THEN {"h-post"} ELSE {})
               \cup After(s, ev, c))
    \cup (IF ~ev.hap THEN {"h-happened"} ELSE {})
ExtEndDo(s, ev) ==
    LET outs == Calls(s, "sOut")
    IN [Settle(s, ev, 0) EXCEPT !.missed = IF outs = <<>> THEN <<>> ELSE outs[1].y]

ConfEndBad(s, ev) ==
    LET exts == Calls(s, "sExt")  confs == Calls(s, "sConf") IN
    (IF s.ph = "out" THEN {} ELSE {"pre"})
    \cup (IF Only(s, {"sExt", "sConf", "sPost"}) THEN {} ELSE {"h-phase"})
    \cup (IF Has(s.due.f)
          THEN IF Len(confs) # 1 \/ exts # <<>> THEN {"h-conf"}
               ELSE LET c == confs[1] IN
                    (IF c.f # s.due.f THEN {"h-flags"} ELSE {})
                    \cup (IF ~NearQ(s, c.q, s.due.q) THEN {"h-extstate"} ELSE {})
                    \cup (IF ~SameX(s, c.x) THEN {"h-input"} ELSE {}) \cup After(s, ev, c)
          ELSE IF Len(exts) # 1 \/ confs # <<>> THEN {"h-conf"}
               ELSE LET c == exts[1] IN
                    (IF ~NearQ(s, c.q, s.due.q) THEN {"h-extstate"} ELSE {})
                    \cup ExtOK(s, c, s.since + (IF s.missed # <<>> THEN 0 ELSE s.tau)) \cup After(s, ev, c))
    \cup (IF ~ev.hap THEN {"h-happened"} ELSE {})
ConfEndDo(s, ev) == Settle(s, ev, 0)

Begin(s, ev) == [s EXCEPT !.calls = <<>>, !.x = IF "x" \in DOMAIN ev THEN ev.x ELSE <<>>,
                          !.dt = IF "dt" \in DOMAIN ev THEN ev.dt ELSE 0]
Inner == {"sPost", "sOut", "sInt", "sExt", "sConf"}

(* The hybrid model deletes the system, solver and finder when it is deleted *)
DelEndBad(s, ev) ==
    IF Len(s.del) = Cardinality(s.adopt) /\ {s.del[i] : i \in DOMAIN s.del} = s.adopt THEN {} ELSE {"life-adopt"}

(* The steps of a simulator with the model: every call is made at its time *)
Clock(s, k, ev) ==
    IF ~s.sim THEN {}
    ELSE IF k = "ext" THEN IF Near(s, ev.dt, s.now - s.at) THEN {} ELSE {"h-sim"}
    ELSE IF Near(s, s.now, s.at + (IF s.missed # <<>> THEN 0 ELSE s.tau)) THEN {} ELSE {"h-sim"}

HybridBad(s, ev) ==
    CASE ev.e = "Step" -> IF s.tau < 0 \/ ev.t < s.at \/ ev.t > s.at + s.tau + s.sl THEN {"h-sim"} ELSE {}
      [] ev.e \in {"OutB", "IntB", "ConfB"} -> Clock(s, "own", ev)
      [] ev.e = "ExtB" -> Clock(s, "ext", ev)
      [] ev.e = "Made" -> IF ev.q = s.q THEN {} ELSE {"h-state"}
      [] ev.e = "Ta" -> TaBad(s, ev)
      [] ev.e = "OutE" -> OutEndBad(s, ev)
      [] ev.e = "IntE" -> IntEndBad(s, ev)
      [] ev.e = "ExtE" -> ExtEndBad(s, ev)
      [] ev.e = "ConfE" -> ConfEndBad(s, ev)
      [] ev.e = "DelE" -> DelEndBad(s, ev)
      [] ev.e = "Del" -> IF s.ph = "deleting" THEN {} ELSE {"life-early"}
      [] ev.e \in Inner -> IF s.ph = "deleting" THEN {"life"} ELSE {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang" -> {"hang"}
      [] OTHER -> {}
HybridDo(s, ev) ==
    CASE ev.e = "Ta" -> [s EXCEPT !.tau = ev.t]
      [] ev.e = "Step" -> [s EXCEPT !.sim = TRUE, !.now = ev.t]
      [] ev.e = "Join" -> [s EXCEPT !.sim = TRUE, !.at = ev.t, !.now = ev.t]
      [] ev.e = "OutE" -> OutEndDo(s, ev)
      [] ev.e = "IntE" -> IntEndDo(s, ev)
      [] ev.e = "ExtE" -> ExtEndDo(s, ev)
      [] ev.e = "ConfE" -> ConfEndDo(s, ev)
      [] ev.e = "DelB" -> [s EXCEPT !.ph = "deleting", !.del = <<>>]
      [] ev.e = "Del" -> [s EXCEPT !.del = Append(@, ev.k)]
      [] ev.e \in Inner -> [s EXCEPT !.calls = Append(@, ev)]
      [] ev.e \in {"OutB", "IntB", "ExtB", "ConfB"} -> Begin(s, ev)
      [] OTHER -> s
=============================================================================

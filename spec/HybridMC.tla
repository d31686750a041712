------------------------------ MODULE HybridMC ------------------------------
(* A hybrid model whose solver and event finder are exact, run by the         *)
(* specification Hybrid.  All sequences of K calls by the simulator are tried *)
(* for each start: the own event, an own event together with input, input     *)
(* before the own event; in each discrete event the system chooses new rates, *)
(* thresholds and a new time event.  Checked: the calls that an exact hybrid  *)
(* model makes of its system are legal, and laws over whole runs.  Each       *)
(* sequence is printed as a script for the harness.                           *)
(*   late   how late the event finder reports a state event                   *)
(*   M      longest step of the solver                                        *)
(* Lengths are in units of 1/16.                                              *)
EXTENDS Hybrid
CONSTANTS K, Size
VARIABLES late, M, s, bad, h, n, at, sent, owed
vars == <<late, M, s, bad, h, n, at, sent, owed>>

U == 256
Never == -99
Min(a, b) == IF a < b THEN a ELSE b
Sign(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
Signs(q) == <<Sign(q[2] - q[4]), Sign(q[1] - q[7])>>
(* A choice of the system: rate, threshold ahead of x, time event, threshold of the clock *)
Opts0 == {<<1, 4, 6, Never>>, <<1, 4, 4, Never>>, <<2, 4, Never, 2>>, <<-1, -3, 8, 3>>, <<0, 0, 0, Never>>, <<1, 0, 2, 4>>}
Opts == IF Size = 1 THEN {<<1, 4, 4, 2>>, <<-1, -3, 0, Never>>, <<0, 0, Never, Never>>}
           ELSE Opts0 \cup {<<0, 0, Never, Never>>}
Choose(q, c) == LET r == <<q[1], q[2], c[1], q[2] + c[2] * U,
                           IF c[3] = Never THEN Forever ELSE q[1] + c[3] * U, q[6],
                           IF c[4] = Never THEN -1000 * Unit ELSE q[1] + c[4] * U>>
                IN [r EXCEPT ![6] = r[2] + r[1]]
Text(c) == ToString(c[1]) \o " " \o ToString(c[2]) \o " " \o ToString(c[3]) \o " " \o ToString(c[4])

(* The step that the hybrid model plans: its length and the state events at its end *)
Plan(x) == LET lim == Max(0, Min(M * U, TimeLeft(x.q)))
               first == FirstChange(x)
           IN IF first > lim THEN [t |-> lim, z |-> FALSE] ELSE [t |-> Min(lim, first + late * U), z |-> TRUE]
Tau(x) == IF x.missed # <<>> THEN 0 ELSE Plan(x).t
EventIn(x) == Plan(x).z \/ TimeLeft(x.q) <= Plan(x).t
FlagsAt(x, q, time) == Flags(x, IF Plan(x).z THEN Changed(x, Signs(q)) ELSE {}, time)

Feed(st, ev) == IF st[2] # {} THEN st
                ELSE LET b == HybridBad(st[1], ev) IN IF b = {} THEN <<HybridDo(st[1], ev), {}>> ELSE <<st[1], b>>
Post(q) == LET r == [q EXCEPT ![6] = q[2] + q[1]] IN [e |-> "sPost", q |-> q, r |-> r, z |-> Signs(q)]
Ta(x) == Feed(<<x, {}>>, [e |-> "Ta", t |-> Tau(x)])
SOut(q, f, i) == [e |-> "sOut", q |-> q, f |-> f, y |-> <<i>>]
(* Output, after Ta *)
Out(st, i) ==
    LET x == st[1]
        a == Feed(st, [e |-> "OutB"])
        now == x.missed = <<>>
        q == IF now THEN Flow(x.q, Plan(x).t) ELSE x.q
        ev == IF now THEN EventIn(x) ELSE TimeLeft(x.q) <= 0
        f == IF now THEN FlagsAt(x, q, TimeLeft(x.q) <= Plan(x).t) ELSE Flags(x, {}, TRUE)
        b == IF now THEN Feed(a, Post(q)) ELSE a
        c == IF ev THEN Feed(b, SOut(q, f, i)) ELSE b
    IN Feed(c, [e |-> "OutE", y |-> x.missed \o (IF ev THEN <<i>> ELSE <<>>)])
Done(st, k, hap, q) == Feed(st, [e |-> k, hap |-> hap, q |-> q, z |-> Signs(q)])
Own(st, c) ==
    LET a == Feed(st, [e |-> "IntB"]) x == a[1] r == Choose(x.due.q, c)
    IN IF Has(x.due.f)
       THEN Done(Feed(a, [e |-> "sInt", q |-> x.due.q, f |-> x.due.f, r |-> r, z |-> Signs(x.due.q)]), "IntE", TRUE, r)
       ELSE Done(a, "IntE", x.missed # <<>>, x.due.q)
Ext(q, el, in, c) == [e |-> "sExt", q |-> q, el |-> el, x |-> in, r |-> Choose(q, c), z |-> Signs(q)]
Cnf(q, f, in, c) == [e |-> "sConf", q |-> q, f |-> f, x |-> in, r |-> Choose(q, c), z |-> Signs(q)]
Conf(st, c, in) ==
    LET a == Feed(st, [e |-> "ConfB", x |-> in]) x == a[1]
    IN Done(Feed(a, IF Has(x.due.f) THEN Cnf(x.due.q, x.due.f, in, c)
                    ELSE Ext(x.due.q, x.since + (IF x.missed # <<>> THEN 0 ELSE x.tau), in, c)), "ConfE", TRUE, Choose(x.due.q, c))
(* Input after time dt: a state event before it, found only now, is handled with it *)
Missed(x, dt) == FirstChange(x) <= dt /\ EventIn(x)
Input(st, dt, c, in, i) ==
    LET a == Feed(st, [e |-> "ExtB", dt |-> dt, x |-> in])
        x == a[1]
        at2 == IF Missed(x, dt) THEN Min(dt, FirstChange(x) + late * U) ELSE dt
        q == Flow(x.q, at2)
        f == Flags(x, Changed(x, Signs(q)), FALSE)
        b == Feed(a, Post(q))
        d == IF Missed(x, dt) THEN Feed(Feed(b, SOut(q, f, i)), Cnf(q, f, in, c)) ELSE Feed(b, Ext(q, x.since + dt, in, c))
    IN Done(d, "ExtE", TRUE, Choose(q, c))

Start(c) == LET q == Choose([i \in 1..7 |-> 0], c) IN
    HybridInit([nz |-> 2, tol |-> late * U, sl |-> 0, kind |-> "mock", q |-> q, z |-> Signs(q)])
Init == /\ late \in {0, 1} /\ M \in {2, 20} /\ n = 0 /\ bad = {} /\ at = 0 /\ sent = <<>> /\ owed = <<>>
        /\ \E c \in Opts0 : /\ s = Start(c)
                               /\ h = "late " \o ToString(late) \o ";max " \o ToString(M) \o ";init " \o Text(c) \o ";"
Set(st) == s' = st[1] /\ bad' = st[2]
Say(t) == h' = h \o t \o ";"
In == <<n + 1>>
(* sent: output that was sent; owed: output of events that were found *)
Outputs(st) == LET o == Calls(st[1], "sOut") IN IF o = <<>> THEN <<>> ELSE o[1].y
Own1 == \E c \in Opts :
    LET o == Out(Ta(s), n) x == o[1] st == Own(o, c) IN
    /\ (~Has(x.due.f) => c = CHOOSE d \in Opts : TRUE)
    /\ Set(st) /\ Say("own " \o Text(c))
    /\ at' = IF Has(x.due.f) \/ s.missed # <<>> THEN st[1].q[1] ELSE at
    /\ owed' = owed \o Outputs(o) /\ sent' = sent \o s.missed \o Outputs(o)
Conf1 == \E c \in Opts :
    LET o == Out(Ta(s), n) st == Conf(o, c, In) IN
    /\ Set(st) /\ Say("conf " \o ToString(n + 1) \o " " \o Text(c)) /\ at' = st[1].q[1]
    /\ owed' = owed \o Outputs(o) /\ sent' = sent \o s.missed \o Outputs(o)
Times(x) == {0, 1, 3, (Tau(x) \div U) - 1, Tau(x) \div (2 * U)}
Input1 == \E c \in Opts, d \in Times(s) :
    /\ s.missed = <<>> /\ d >= 0 /\ d * U < Tau(s)
    /\ LET st == Input(Ta(s), d * U, c, In, n) IN
       /\ Set(st) /\ Say("ext " \o ToString(d) \o " " \o ToString(n + 1) \o " " \o Text(c)) /\ at' = st[1].q[1]
       /\ owed' = owed \o Outputs(st) /\ sent' = sent
Next == n < K /\ bad = {} /\ Tau(s) < Forever /\ n' = n + 1 /\ UNCHANGED <<late, M>> /\ (Own1 \/ Conf1 \/ Input1)
Spec == Init /\ [][Next]_vars
Rest == "own 0 0 -99 -99;own 1 2 3 -99;own 0 0 -99 -99;"
Emit == (n = K \/ ~ENABLED Next) => PrintT("SCRIPT " \o h \o Rest)
----------------------------------------------------------------------------
Legal == bad = {}
(* The clock of the last discrete event *)
Since == s.since = s.q[1] - at
(* Every output that an event produced is sent once, at the latest in the next step *)
Sent == owed = sent \o s.missed
(* No event function has changed its sign since the last transition without an event *)
Clear == s.z = Signs(s.q) /\ (s.missed # <<>> => Tau(s) = 0)
=============================================================================

------------------------------- MODULE CvodeMC --------------------------------
(* The wrapper for a solver with restarts as an algorithm (cvode.h): it keeps a  *)
(* checkpoint of the state, its time, the time of the end of the integration     *)
(* and whether an event was reported there.  Every sequence of K steps is tried   *)
(* with every behaviour of the integrations: how far they go, whether they end   *)
(* with an event, and whether they leave the flag alone if there is none.        *)
(* Checked: the calls of the wrapper are those that Cvode permits, and what the  *)
(* wrapper remembers is the truth.  Each sequence is printed as a script.        *)
(* Lengths are in units of 1/16.                                                 *)
EXTENDS Cvode
CONSTANTS K, Size
VARIABLES s, bad, w, y, plain, h, n
vars == <<s, bad, w, y, plain, h, n>>
U == 256

(* st: the specification, broken rules, memory of the wrapper, state of the user's solver *)
Feed(st, ev) == IF st.bad # {} THEN st
                ELSE LET b == CvodeBad(st.s, ev) IN IF b = {} THEN [st EXCEPT !.s = CvodeDo(@, ev)] ELSE [st EXCEPT !.bad = b]
Flow(q, d) == [q EXCEPT ![1] = @ + d, ![2] = @ + q[3] * d]
(* A discrete event: the i-th rate *)
Choose(q, i) == [q EXCEPT ![3] = <<1, -2, 0, 3>>[1 + (i % 4)], ![5] = i]
Report(flag, ev) == IF ev \/ ~plain THEN ev ELSE flag
Save(st) == [st EXCEPT !.w.chk = st.y]

TaOp(st, d, ev) ==
    LET a == Feed([st EXCEPT !.w.ev = FALSE], [e |-> "TaB"])
        r == Flow(a.y, d)
        b == Feed(a, [e |-> "cInteg", q |-> a.y, r |-> r, tf |-> r[1], ev |-> ev])
        c == [b EXCEPT !.y = r, !.w.tp = r[1], !.w.ev = Report(a.w.ev, ev)]
    IN Feed(c, [e |-> "TaE", t |-> c.w.tp - c.w.t, q |-> c.y])
OutOp(st) ==
    LET a == Feed(st, [e |-> "OutB"])
        b == IF st.w.ev THEN Feed(a, [e |-> "cOut", q |-> st.y, y |-> <<1, 2, 1>>]) ELSE a
    IN Feed(b, [e |-> "OutE", y |-> IF st.w.ev THEN <<2, 1, 1>> ELSE <<>>])
Change(st, k, ev, i) == [Feed(st, [ev EXCEPT !.e = k, !.q = st.y, !.r = Choose(st.y, i)]) EXCEPT !.y = Choose(st.y, i)]
None == [e |-> "", q |-> <<>>, r |-> <<>>, x |-> <<>>, t |-> 0]
End(st, k) == Feed(Save(st), [e |-> k, q |-> st.y])
IntOp(st, i) ==
    LET a == Feed(st, [e |-> "IntB"])
        b == IF st.w.ev THEN Change(a, "cInt", None, i) ELSE a
    IN End([b EXCEPT !.w.t = st.w.tp], "IntE")
ConfOp(st, i, x) ==
    LET a == Feed(st, [e |-> "ConfB", x |-> x])
        b == IF st.w.ev THEN Change(a, "cConf", [None EXCEPT !.x = x], i) ELSE Change(a, "cExt", [None EXCEPT !.x = x, !.t = st.w.tp], i)
    IN End([b EXCEPT !.w.t = st.w.tp], "ConfE")
ExtOp(st, d, ev, i, x) ==
    LET a == Feed(st, [e |-> "ExtB", dt |-> d, x |-> x])
        b == [Feed(a, [e |-> "cReinit", q |-> st.w.chk, t |-> st.w.t]) EXCEPT !.y = st.w.chk, !.w.t = @ + d, !.w.ev = FALSE]
        r == Flow(b.y, d)
        c == [Feed(b, [e |-> "cUntil", q |-> b.y, r |-> r, tf |-> b.w.t, ev |-> ev]) EXCEPT !.y = r, !.w.ev = Report(b.w.ev, ev)]
        e == IF c.w.ev THEN Change(c, "cConf", [None EXCEPT !.x = x], i) ELSE Change(c, "cExt", [None EXCEPT !.x = x, !.t = c.w.t], i)
    IN End(e, "ExtE")
----------------------------------------------------------------------------
Lengths == IF Size = 1 THEN {0, 4} ELSE {0, 1, 4}
Now == [s |-> s, bad |-> bad, w |-> w, y |-> y]
Take(st) == s' = st.s /\ bad' = st.bad /\ w' = st.w /\ y' = st.y
Bit(b) == IF b THEN "1" ELSE "0"
Start == <<0, 0, 1, 0, 0>>
Init == /\ plain \in BOOLEAN /\ s = CvodeInit([q |-> Start]) /\ bad = {} /\ y = Start /\ n = 0
        /\ w = [chk |-> Start, t |-> 0, tp |-> 0, ev |-> FALSE]
        /\ h = "init " \o Bit(plain) \o ";"
Next == /\ n < K /\ bad = {} /\ n' = n + 1 /\ UNCHANGED plain
        /\ \E d \in Lengths, ev \in BOOLEAN :
           LET a == TaOp(Now, d * U, ev)
               say == h \o "ta " \o ToString(d) \o " " \o Bit(ev) \o ";"
           IN \/ Take(IntOp(OutOp(a), n)) /\ h' = say \o "int " \o ToString(n) \o ";"
              \/ Take(ConfOp(OutOp(a), n, <<n, 7>>)) /\ h' = say \o "conf " \o ToString(n) \o ";"
              \/ \E e \in {0, 1, d \div 2, d - 1, d}, u \in BOOLEAN :
                   /\ e >= 0 /\ e <= d
                   /\ Take(ExtOp(a, e * U, u, n, <<n>>))
                   /\ h' = say \o "ext " \o ToString(e) \o " " \o Bit(u) \o " " \o ToString(n) \o ";"
Spec == Init /\ [][Next]_vars
Rest == "ta 3 0;ext 1 0 1;ta 4 1;int 2;ta 1 0;int 3;"
Emit == n = K => PrintT("SCRIPT " \o h \o Rest)
----------------------------------------------------------------------------
Legal == bad = {}
(* Between the steps the checkpoint, the solver and the intended state agree *)
Agree == w.chk = y /\ s.q = y /\ w.t = s.t /\ w.t = y[1] /\ s.ph = "idle"
=============================================================================

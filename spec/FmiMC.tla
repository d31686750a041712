-------------------------------- MODULE FmiMC ---------------------------------
(* The wrapper of an FMU as an algorithm (fmi.h): it remembers whether the FMU  *)
(* is in continuous time mode, the announced time event and the time of the    *)
(* last completed step.  Every sequence of K calls that a hybrid model makes    *)
(* of it is tried with every FMU: how often an iteration of events asks for     *)
(* another one, which next event it announces, whether it leaves the answer     *)
(* untouched, whether a completed step asks for an event.  Checked: the calls   *)
(* that the wrapper makes of the FMU are those that Fmi permits, and what the   *)
(* wrapper remembers is the truth.  Each sequence is printed as a script.       *)
(* Lengths are in units of 1/16.                                                *)
EXTENDS Fmi
CONSTANTS K, Size
VARIABLES s, bad, w, q, h, n
vars == <<s, bad, w, q, h, n>>
U == 65536
None == -1
Quiet == -2

(* st: the state of the FMU, broken rules, the memory of the wrapper, the vector of the caller *)
Feed(st, ev) == IF st.bad # {} THEN st
                ELSE LET b == FmiBad(st.s, ev) IN IF b = {} THEN [st EXCEPT !.s = FmiDo(@, ev)] ELSE [st EXCEPT !.bad = b]
Call(st, e) == Feed(st, [e |-> e])
Nx(st) == st.s.nx
T(v) == v[Len(v)]
X(v) == SubSeq(v, 1, Len(v) - 1)
Time(st, t) == Feed(st, [e |-> "mTime", t |-> t, ti |-> t])
States(st, v) == Feed(st, [e |-> "mStates", n |-> Len(X(v)), x |-> X(v)])
Cont(st) == IF st.w.cont THEN st ELSE [Call(st, "mEnterCont") EXCEPT !.w.cont = TRUE]
(* An answer of the FMU to an event: iterations, next event, new states or not *)
RECURSIVE Iterate(_, _, _)
Iterate(st, a, i) ==
    LET last == i = a.n
        c == Feed(st, [e |-> "mNew", more |-> ~last, x |-> IF a.x THEN [k \in 1..Nx(st) |-> st.s.x[k] + 1] ELSE st.s.x,
                       next |-> IF last /\ a.next >= 0 THEN st.w.now + a.next * U ELSE Forever])
    IN IF last THEN [c EXCEPT !.w.next = IF a.next < 0 THEN Forever ELSE st.w.now + a.next * U] ELSE Iterate(c, a, i + 1)
Get(st) == LET c == Feed(st, [e |-> "mGet", n |-> Nx(st)]) IN [c EXCEPT !.q = Append(c.s.x, T(@))]
InitOp(st, a) ==
    LET c == Iterate(Call(Call(Call(st, "InitB"), "mEnterInit"), "mExitInit"), a, 1)
        d == Get(Time(Call(c, "mEnterCont"), 0))
    IN Feed([d EXCEPT !.w.cont = TRUE], [e |-> "InitE", q |-> d.q])
DerOp(st, p) ==
    LET v == [k \in 1..Nx(st) |-> 7]
        c == Feed(States(Time(Cont(Call(st, "DerB")), T(p)), p), [e |-> "mDer", n |-> Nx(st), v |-> v])
    IN Feed(c, [e |-> "DerE", q |-> p, v |-> Append(v, 1)])
IndOp(st, p) ==
    LET v == [k \in 1..st.s.nz |-> 3]
        c == IF st.s.nz = 0 THEN Call(st, "IndB")
             ELSE Feed(States(Time(Cont(Call(st, "IndB")), T(p)), p), [e |-> "mInd", n |-> st.s.nz, v |-> v])
    IN Feed(c, [e |-> "IndE", q |-> p, v |-> v])
RECURSIVE Cols(_, _)
Cols(st, k) == IF k = 0 THEN st ELSE Cols(Feed(st, [e |-> "mDir", ok |-> TRUE]), k - 1)
JacOp(st, p) ==
    LET b == Call(st, "JacB")
        c == IF ~st.s.cap THEN b ELSE Cols(States(Time(Cont(b), T(p)), p), Nx(st))
    IN Feed(c, [e |-> "JacE", r |-> st.s.cap, null |-> FALSE, q |-> p, m |-> <<>>, want |-> <<>>])
TevOp(st, p) == Feed(st, [e |-> "Tev", now |-> T(p), dt |-> IF st.w.next = Forever THEN Forever ELSE st.w.next - T(p)])
TrialOp(st) == Feed(States(Time(Cont(Call(st, "TrialB")), T(st.q)), st.q), [e |-> "TrialE", q |-> st.q])
PostOp(st, enter) ==
    LET adv == T(st.q) > st.w.now
        b == Feed(st, [e |-> "PostB", adv |-> adv, ti |-> T(st.q)])
        c == IF ~adv THEN b
             ELSE [Feed(States(Time(b, T(st.q)), st.q), [e |-> "mComp", enter |-> enter]) EXCEPT
                   !.w.now = T(st.q), !.w.next = IF enter THEN T(st.q) ELSE @]
    IN Feed(c, [e |-> "PostE", q |-> st.q, now |-> c.w.now])
EvOp(st, k, a) ==
    LET b == Feed(st, [e |-> "EvB", k |-> k, q |-> st.q])
        c == IF st.w.cont THEN [Call(b, "mEnterEvent") EXCEPT !.w.cont = FALSE] ELSE b
        d == Get(Iterate(c, a, 1))
    IN Feed(d, [e |-> "EvE", q |-> d.q])
----------------------------------------------------------------------------
Answers == {[n |-> 1, next |-> Quiet, x |-> FALSE], [n |-> 1, next |-> None, x |-> TRUE], [n |-> 1, next |-> 0, x |-> FALSE], [n |-> 2, next |-> 3, x |-> TRUE],
            [n |-> 3, next |-> None, x |-> FALSE], [n |-> 1, next |-> 2, x |-> TRUE]}
Firsts == {[n |-> 1, next |-> Quiet, x |-> FALSE], [n |-> 2, next |-> 2, x |-> TRUE], [n |-> 3, next |-> None, x |-> TRUE]}
Fmus == IF Size = 1 THEN {<<1, 1, TRUE>>} ELSE {<<1, 1, TRUE>>, <<2, 0, FALSE>>, <<2, 1, TRUE>>}
Trials == {<<>>, <<"der">>, <<"ind">>, <<"jac">>, <<"der", "ind">>}
Say(a) == ToString(a.n) \o " " \o ToString(a.next) \o " " \o (IF a.x THEN "1" ELSE "0")
Now == [s |-> s, bad |-> bad, w |-> w, q |-> q]
Take(st) == s' = st.s /\ bad' = st.bad /\ w' = st.w /\ q' = st.q
Made(f) ==
    LET i == FmiInit([nx |-> f[1], nz |-> f[2], cap |-> f[3], good |-> TRUE, tol |-> 1, zero |-> 0, one |-> 1, x |-> [k \in 1..f[1] |-> 5]])
        st == [s |-> i, bad |-> {}, w |-> [cont |-> FALSE, next |-> Forever, now |-> 0], q |-> [k \in 1..f[1] + 1 |-> 0]]
        a == Feed(Feed(Feed(Call(st, "mTmp"), [e |-> "mCtx", ok |-> TRUE]), [e |-> "mParse", ok |-> TRUE]), [e |-> "mDll", me |-> TRUE])
        b == Feed(Call(Feed(a, [e |-> "mInst", me |-> TRUE]), "mFreeCtx"), [e |-> "mRmTmp", ok |-> TRUE])
    IN Feed(Feed(b, [e |-> "mSetup", tol |-> 1, start |-> 0, def |-> 1, stop |-> 0]), [e |-> "Made", nv |-> f[1] + 1, ne |-> f[2]])
Init == \E f \in Fmus, a \in Firsts :
    LET st == InitOp(Made(f), a)
    IN /\ s = st.s /\ bad = st.bad /\ w = st.w /\ q = st.q /\ n = 0
       /\ h = "fmu " \o ToString(f[1]) \o " " \o ToString(f[2]) \o " " \o (IF f[3] THEN "1" ELSE "0") \o ";init " \o Say(a) \o ";"
(* Trial functions are evaluated at the end of a step of length d and beyond the start; then the step is taken *)
Point(v, d) == Append([k \in 1..Len(v) - 1 |-> v[k] + 2], T(v) + d)
RECURSIVE Try(_, _, _)
Try(st, ops, p) ==
    IF ops = <<>> THEN st
    ELSE Try(CASE Head(ops) = "der" -> DerOp(st, p) [] Head(ops) = "ind" -> IndOp(st, p) [] OTHER -> JacOp(st, p), Tail(ops), p)
Left == IF w.next = Forever THEN Forever ELSE w.next - T(q)
Due == Left <= 0
Lengths == {0} \cup (IF Due THEN {} ELSE {1 * U} \cup (IF Left = Forever THEN {} ELSE {Left}))
RECURSIVE Join(_)
Join(o) == IF o = <<>> THEN "" ELSE " " \o Head(o) \o Join(Tail(o))
Advance == \E ops \in Trials, d \in Lengths, enter \in BOOLEAN :
    /\ d = 0 => ~enter
    /\ LET a == TrialOp(Try(TevOp(Now, q), ops, Point(q, d)))
           b == IF d = 0 THEN a ELSE [a EXCEPT !.q = Append([k \in 1..Len(q) - 1 |-> q[k] + 1], T(q) + d)]
       IN Take(TevOp(PostOp(b, enter), b.q))
    /\ h' = h \o "adv " \o ToString(d \div U) \o " " \o (IF enter THEN "1" ELSE "0") \o Join(ops) \o ";"
Event == \E k \in {"int", "ext", "conf"}, a \in Answers :
    Take(EvOp(Now, k, a)) /\ h' = h \o k \o " " \o Say(a) \o ";"
Next == n < K /\ bad = {} /\ n' = n + 1 /\ (Advance \/ Event)
Spec == Init /\ [][Next]_vars
Rest == "adv 0 0 ind;int 2 1 1;adv 1 0 der ind;conf 1 -1 0;adv 1 1 der;ext 1 -2 0;adv 1 0 jac;"
Emit == n = K => PrintT("SCRIPT " \o h \o Rest)
----------------------------------------------------------------------------
Legal == bad = {}
(* What the wrapper remembers *)
Mode == bad = {} => w.cont = (s.mode = "cont") /\ s.mode \in {"cont", "event"} /\ ~s.more
Tells == w.next = s.next /\ w.now = s.done
(* The FMU is where the model is *)
Same == Vec(s) = q
(* A wanted event is due at once *)
Wanted == s.asked => Due
=============================================================================

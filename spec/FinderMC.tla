------------------------------ MODULE FinderMC -------------------------------
(* The searches for state events as algorithms (event_locators.h): halving,    *)
(* interpolating and halving for discontinuous functions shorten the interval  *)
(* until the event is at its end or beyond; the fast one keeps a bracket.      *)
(* Every search with up to M event functions of direction sg whose zero is a   *)
(* multiple of G inside the interval, at its ends, or outside is run.  Units   *)
(* are 1/4096.  Checked: each search ends, with an answer that Finder permits. *)
(* Each search is printed as a script for the code.                            *)
EXTENDS Finder, TLC
CONSTANTS M, G, Tols, Lengths
VARIABLES c, h, lo, hi, done, r, f, n
vars == <<c, h, lo, hi, done, r, f, n>>

Sg(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Places(len) == {G * i : i \in -1..(len \div G) + 1}
Functions(len) == {-1, 1} \X Places(len)
Searches ==
    UNION {{[kind |-> k[1], disc |-> k[2], tol |-> t, len |-> len, fs |-> fs] :
                k \in {<<"bisect", FALSE>>, <<"linear", FALSE>>, <<"disc", FALSE>>, <<"disc", TRUE>>, <<"fast", FALSE>>, <<"spline", FALSE>>, <<"null", FALSE>>},
                t \in Tols, fs \in UNION {[1..m -> Functions(len)] : m \in 0..M}} : len \in Lengths}
(* The functions at the time t; the state x is t *)
Val(i, t) == LET x == c.fs[i][1] * (t - c.fs[i][2]) IN IF ~c.disc THEN x ELSE IF x < 0 THEN -1 ELSE 1
Signs(t) == [i \in DOMAIN c.fs |-> Sg(Val(i, t))]
State(t) == <<t, t, 1, 0, 0, -2 * t>>
Fast == c.kind \in {"fast", "spline"}
SignChange(t) == \E i \in DOMAIN c.fs : Val(i, 0) * Val(i, t) <= 0

Init == /\ c \in Searches
        /\ h = c.len /\ lo = 0 /\ hi = c.len /\ done = FALSE /\ r = FALSE /\ n = 0
        /\ f = [i \in DOMAIN c.fs |-> FALSE]
End(ok, fl) == done' = TRUE /\ r' = ok /\ f' = fl /\ UNCHANGED <<c, h, lo, hi>> /\ n' = n + 1
Go(x, l, u) == h' = x /\ lo' = l /\ hi' = u /\ n' = n + 1 /\ UNCHANGED <<c, done, r, f>>
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(a, b) == IF a > b THEN a ELSE b
Shorten ==
    LET changed == {i \in DOMAIN c.fs : Sg(Val(i, h)) # Sg(Val(i, 0))}
        here == {i \in changed : IF c.kind = "disc" THEN h <= c.tol ELSE Abs(Val(i, h)) <= c.tol}
        before == changed \ here
        guess(i) == MaxOf((Val(i, 0) * h) \div (Val(i, 0) - Val(i, h)), h \div 4)
    IN IF before = {} THEN End(here # {}, [i \in DOMAIN c.fs |-> i \in here])
       ELSE Go(IF c.kind = "linear" THEN MinOf({h} \cup {guess(i) : i \in before}) ELSE h \div 2, lo, hi)
(* A bracket that cannot be halved any more is small enough, too *)
Found(t) == done' = TRUE /\ r' = TRUE /\ h' = t /\ f' = [i \in DOMAIN c.fs |-> Val(i, 0) * Val(i, t) <= 0] /\ UNCHANGED <<c, lo, hi>> /\ n' = n + 1
Halve(l, u) == IF u - l < 2 THEN Found(u) ELSE Go((u + l) \div 2, l, u)
Bracket ==
    IF n = 0 /\ ~SignChange(h) THEN End(FALSE, f)
    ELSE IF ~SignChange(h) THEN Halve(h, hi)
    ELSE IF hi - lo < c.tol THEN Found(h)
    ELSE Halve(lo, h)
Next == /\ ~done
        /\ IF c.kind = "null" \/ c.fs = <<>> THEN End(FALSE, f)
           ELSE IF Fast THEN Bracket ELSE Shorten
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
Answer == [e |-> "Find", kind |-> c.kind, tol |-> c.tol, sl |-> 0, h0 |-> c.len, q0 |-> State(0), z0 |-> Signs(0), ze |-> Signs(c.len),
           r |-> r, same |-> h = c.len, h |-> h, q |-> State(h), z |-> Signs(h), zb |-> Signs(MaxOf(0, h - c.tol)),
           mag |-> [i \in DOMAIN c.fs |-> Abs(Val(i, h))], f |-> f]
Permitted == done => FindBad(Answer) = {}
(* The bracket holds a change, and all ends are exact *)
Brackets == (Fast /\ ~done /\ n > 0) => lo <= h /\ h <= hi /\ SignChange(hi)
Bounded == n <= 40
Ends == <>done
RECURSIVE Say(_)
Say(fs) == IF fs = <<>> THEN "" ELSE " " \o ToString(Head(fs)[1]) \o " " \o ToString(Head(fs)[2]) \o Say(Tail(fs))
Emit == done => PrintT("SCRIPT " \o c.kind \o (IF c.disc THEN " 1 " ELSE " 0 ") \o ToString(c.tol) \o " " \o ToString(c.len) \o Say(c.fs))
=============================================================================

------------------------------ MODULE TreeGen -------------------------------
(* Edits of coupled models, before and while one of them is simulated.  The   *)
(* state space is that of the tree of coupled models and of the simulated     *)
(* graph, which only changes by the requests that edits make (EditOps).       *)
(* Invariant: the simulated graph is always what the tree flattens to.  One   *)
(* program is printed for each transition of the state space, as a script for *)
(* the harness.                                                               *)
EXTENDS CoupledTree
CONSTANTS NM, NP, NC, K, MaxPend
VARIABLES h, n, ct, g, pend, root
vars == <<h, n, ct, g, pend, root>>
Str(x) == ToString(x)
Head0 == "n " \o Str(NM) \o " " \o Str(NP) \o " " \o Str(NC) \o ";"
         \o FoldLeft(LAMBDA a, m : a \o "m " \o Str(m) \o " 0 0 - i;", "", [m \in 1..NM |-> m]) \o "begin;"
InjAll(v) == FoldLeft(LAMBDA a, p : a \o "inj " \o Str(p) \o " " \o Str(v + p) \o ";", "", [p \in 1..NP |-> p])
Tail0 == (IF root = 0 THEN "new coupled 1;" ELSE "") \o InjAll(10) \o "set 0;step;" \o InjAll(20) \o "set 0;step;quit;"
Ed(k, c, d, p, q, m) == [k |-> k, c |-> c, d |-> d, p |-> p, q |-> q, m |-> m]
Coup == 1..NC
Mods == 1..NM
Pin == 1..NP
Edits == {Ed(k, c, 0, 0, 0, m) : k \in {"cadd", "crem"}, c \in Coup, m \in Mods}
    \cup {Ed(k, c, 0, p, 0, m) : k \in {"cpa", "cdpa"}, c \in Coup, p \in Pin, m \in Mods}
    \cup {x \in {Ed(k, c, 0, p, q, 0) : k \in {"cpp", "cdpp"}, c \in Coup, p \in Pin, q \in Pin} : x.p < x.q}
    \cup {Ed(k, c, d, 0, 0, 0) : k \in {"ccadd", "ccrem"}, c \in Coup, d \in Coup}
Line(e) == e.k \o " " \o Str(e.c) \o (IF e.d # 0 THEN " " \o Str(e.d) ELSE "") \o (IF e.p # 0 THEN " " \o Str(e.p) ELSE "")
               \o (IF e.q # 0 THEN " " \o Str(e.q) ELSE "") \o (IF e.m # 0 THEN " " \o Str(e.m) ELSE "") \o ";"
Init == h = "" /\ n = 0 /\ ct = [c \in Coup |-> NoParts] /\ g = EmptyG /\ pend = <<>> /\ root = 0
Change == \E e \in Edits :
    /\ EditOK(ct, e) /\ Len(pend) < MaxPend
    /\ ct' = Edit(ct, e) /\ h' = h \o Line(e)
    /\ pend' = (IF root = 0 THEN pend ELSE pend \o EditOps(ct, root, e))
    /\ UNCHANGED <<g, root>>
Start == root = 0 /\ \E r \in 1..(IF NC > 1 THEN 2 ELSE 1) :
    /\ root' = r /\ g' = Flatten(ct, r) /\ h' = h \o "new coupled " \o Str(r) \o ";" /\ UNCHANGED <<ct, pend>>
Step == /\ root # 0 /\ pend # <<>>
        /\ g' = ApplyAll(g, pend) /\ pend' = <<>> /\ h' = h \o "inj 1 5;set 0;step;" /\ UNCHANGED <<ct, root>>
Next == n < K /\ n' = n + 1 /\ (Change \/ Start \/ Step)
Spec == Init /\ [][Next]_vars
EmitT == PrintT("SCRIPT " \o Head0 \o h' \o Tail0')
View == <<ct, g, pend, root>>
Agrees == root # 0 => ApplyAll(g, pend) = Flatten(ct, root)
OK == StructureOK(g) /\ TreeOK(ct)
=============================================================================

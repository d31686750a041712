----------------------------- MODULE StructGen ------------------------------
(* Programs that edit a graph, before and while it is simulated: every        *)
(* sequence of K requests, steps and the start of the simulation, up to the   *)
(* names of models and pins.  Each program is printed as a script that the    *)
(* harness executes; DevsTrace then judges what the code did.                 *)
(* With a view (StructGenV) it is instead one program for each transition of  *)
(* the state space of the structure.                                          *)
EXTENDS Structure
CONSTANTS NM, NP, K, MaxCount, MaxPend
VARIABLES h, n, g, pend, ph, um, up
vars == <<h, n, g, pend, ph, um, up>>
Str(x) == ToString(x)
Head0 == "n " \o Str(NM) \o " " \o Str(NP) \o " 0;"
         \o FoldLeft(LAMBDA a, m : a \o "m " \o Str(m) \o " 0 0 - i;", "", [m \in 1..NM |-> m]) \o "begin;"
InjAll(v) == FoldLeft(LAMBDA a, p : a \o "inj " \o Str(p) \o " " \o Str(v + p) \o ";", "", [p \in 1..NP |-> p])
Tail0 == "probe;" \o (IF ph = "build" THEN "new graph 0;" ELSE "") \o InjAll(10) \o "set 0;step;probe;"
         \o InjAll(20) \o "set 0;step;quit;"

Fresh(u, N) == 1..(IF u + 1 > N THEN N ELSE u + 1)
Max2(a, b) == IF a > b THEN a ELSE b
Op(k, p, q, m) == [k |-> k, p |-> p, q |-> q, m |-> m]
Ops ==  {Op(k, 0, 0, m) : k \in {"add", "rem"}, m \in Fresh(um, NM)}
   \cup {Op(k, p, q, 0) : k \in {"pp", "dpp"}, p \in Fresh(up, NP), q \in 1..NP}
   \cup {Op(k, p, 0, m) : k \in {"pa", "dpa"}, p \in Fresh(up, NP), m \in Fresh(um, NM)}
   \cup {Op("rp", p, 0, 0) : p \in Fresh(up, NP)}
Line(o) == o.k \o (IF o.p # 0 THEN " " \o Str(o.p) ELSE "") \o (IF o.q # 0 THEN " " \o Str(o.q) ELSE "")
               \o (IF o.m # 0 THEN " " \o Str(o.m) ELSE "") \o ";"
Final == ApplyAll(g, pend)
Small(x) == /\ \A m \in DOMAIN x.mem : x.mem[m] <= MaxCount
            /\ \A e \in DOMAIN x.pp : x.pp[e] <= MaxCount
            /\ \A e \in DOMAIN x.pa : x.pa[e] <= MaxCount
Init == h = "" /\ n = 0 /\ g = EmptyG /\ pend = <<>> /\ ph = "build" /\ um = 0 /\ up = 0
Edit1 == \E o \in Ops :
    /\ Len(pend) < MaxPend
    /\ o.q # 0 => o.q <= Max2(up, o.p) + 1
    /\ o.k = "pa" => o.m \in Members(Final)
    /\ Small(Apply(Final, o))
    /\ h' = h \o Line(o)
    /\ um' = Max2(um, o.m) /\ up' = Max2(up, Max2(o.p, o.q))
    /\ IF ph = "build" THEN g' = Apply(g, o) /\ UNCHANGED pend ELSE pend' = Append(pend, o) /\ UNCHANGED g
    /\ UNCHANGED ph
Start == ph = "build" /\ ph' = "sim" /\ h' = h \o "new graph 0;" /\ UNCHANGED <<g, pend, um, up>>
Step == /\ ph = "sim" /\ (pend # <<>> \/ Members(g) # {})
        /\ \E p \in 1..up : h' = h \o "inj " \o Str(p) \o " 5;set 0;step;"
        /\ g' = ApplyAll(g, pend) /\ pend' = <<>> /\ UNCHANGED <<ph, um, up>>
Next == n < K /\ n' = n + 1 /\ (Edit1 \/ Start \/ Step)
Spec == Init /\ [][Next]_vars
(* One program for each sequence of K *)
Emit == n = K => PrintT("SCRIPT " \o Head0 \o h \o Tail0)
(* One program for each transition *)
EmitT == PrintT("SCRIPT " \o Head0 \o h' \o Tail0')
View == <<g, pend, ph>>
OK == StructureOK(g) /\ StructureOK(Final)
=============================================================================

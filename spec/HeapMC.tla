------------------------------- MODULE HeapMC -------------------------------
(* The algorithm of the event list, an array heap whose capacity doubles, and *)
(* the queue of Sched that it implements: every sequence of requests with N   *)
(* models and times 0..R.  Models only differ in their names, so states with  *)
(* the same times in the same places are the same (View).  One program is     *)
(* printed for each transition.                                               *)
EXTENDS Sched, SequencesExt
CONSTANTS N, R, Cap0
VARIABLES heap, size, cap, qi, q, h
vars == <<heap, size, cap, qi, q, h>>
Mod == 1..N
El(m, p) == [item |-> m, pr |-> p]
None == El(0, Inf)
T(x) == <<x, 0>>
Times == {T(x) : x \in 0..R} \cup {Inf}
(* The array has a guard in front; what is behind the end does not matter *)
Init == /\ heap = [i \in 0..N + 1 |-> IF i = 0 THEN El(0, <<-1, 0>>) ELSE None]
        /\ size = 0 /\ cap = Cap0 /\ qi = [m \in Mod |-> 0] /\ q = <<>> /\ h = ""

(* Triples <<heap, qi, index>> *)
RECURSIVE Up(_, _, _, _), Down(_, _, _, _, _)
Up(hp, x, i, p) ==
    IF Le(p, hp[i \div 2].pr)
    THEN Up([hp EXCEPT ![i] = hp[i \div 2]], [x EXCEPT ![hp[i \div 2].item] = i], i \div 2, p)
    ELSE <<hp, x, i>>
Down(hp, x, sz, i, p) ==
    IF i * 2 > sz THEN <<hp, x, i>>
    ELSE LET l == i * 2
             c == IF l # sz /\ Lt(hp[l + 1].pr, hp[l].pr) THEN l + 1 ELSE l
         IN IF Lt(hp[c].pr, p) THEN Down([hp EXCEPT ![i] = hp[c]], [x EXCEPT ![hp[c].item] = i], sz, c, p)
            ELSE <<hp, x, i>>
(* Results are records with heap, size, qi *)
RemoveMin(hp, sz, x) ==
    IF sz = 0 THEN [heap |-> hp, size |-> 0, qi |-> x]
    ELSE LET n  == sz - 1
             x1 == [x EXCEPT ![hp[1].item] = 0]
             h1 == [hp EXCEPT ![1].item = 0]
         IN IF n = 0 THEN [heap |-> [h1 EXCEPT ![1].pr = Inf], size |-> 0, qi |-> x1]
            ELSE LET d == Down(h1, x1, n, 1, h1[n + 1].pr)
                     last == d[1][n + 1]
                 IN [heap |-> [[d[1] EXCEPT ![d[3]] = last] EXCEPT ![n + 1].item = 0], size |-> n,
                     qi |-> [d[2] EXCEPT ![last.item] = d[3]]]
Schedule(hp, sz, x, m, p) ==
    LET at(d, s) == [heap |-> [d[1] EXCEPT ![d[3]] = El(m, p)], size |-> s, qi |-> [d[2] EXCEPT ![m] = d[3]]] IN
    IF x[m] # 0 THEN
        IF p = Inf THEN
            LET mp == hp[1].pr
                d  == Up(hp, x, x[m], mp)
            IN RemoveMin([d[1] EXCEPT ![d[3]] = El(m, mp)], sz, [d[2] EXCEPT ![m] = d[3]])
        ELSE IF Lt(p, hp[x[m]].pr) THEN at(Up(hp, x, x[m], p), sz)
        ELSE IF Lt(hp[x[m]].pr, p) THEN at(Down(hp, x, sz, x[m], p), sz)
        ELSE [heap |-> hp, size |-> sz, qi |-> x]
    ELSE IF p # Inf THEN at(Up(hp, x, sz + 1, p), sz + 1)
    ELSE [heap |-> hp, size |-> sz, qi |-> x]
Set(r) == heap' = r.heap /\ size' = r.size /\ qi' = r.qi /\ cap' = IF r.size = cap THEN 2 * cap ELSE cap

Str(x) == ToString(x)
PutM == \E m \in Mod, p \in Times :
    /\ (m > 1 /\ qi[m] = 0 => qi[m - 1] # 0)
    /\ Set(Schedule(heap, size, qi, m, p))
    /\ q' = Put(q, m, p)
    /\ h' = h \o "put " \o Str(m) \o (IF p = Inf THEN " i;" ELSE " " \o Str(p[1]) \o ";")
PopM == /\ Set(RemoveMin(heap, size, qi))
        /\ q' = IF size = 0 THEN q ELSE Put(q, heap[1].item, Inf)
        /\ (size > 0 => heap[1].item \in Imminent(q))
        /\ h' = h \o "pop;"
Next == PutM \/ PopM
Spec == Init /\ [][Next]_vars
View == <<[i \in 1..size |-> heap[i].pr], cap>>
EmitT == PrintT("SCRIPT " \o h')
-----------------------------------------------------------------------------
RECURSIVE Visit(_)
Visit(i) == IF i > size \/ Lt(heap[1].pr, heap[i].pr) THEN <<>> ELSE <<heap[i].item>> \o Visit(2 * i) \o Visit(2 * i + 1)
Refines == q = [m \in {x \in Mod : qi[x] # 0} |-> heap[qi[m]].pr]
Places == \A m \in Mod : qi[m] # 0 => qi[m] <= size /\ heap[qi[m]].item = m
Heap == \A i \in 2..size : Le(heap[i \div 2].pr, heap[i].pr)
Reports == /\ size = Cardinality(DOMAIN q)
           /\ heap[1].pr = MinTime(q)
           /\ (size > 0 => Range(Visit(1)) = Imminent(q) /\ Len(Visit(1)) = Cardinality(Imminent(q)))
Fits == size < cap
=============================================================================

------------------------------ MODULE HeapMC2 -------------------------------
(* The algorithm of the event list of schedule2.h, a heap with an index of    *)
(* the places of the models, and the queue of Sched2 that it implements:      *)
(* every sequence of requests with N models and times 0..R.  States with the  *)
(* same times in the same places are the same (View).  One program is printed *)
(* for each transition.                                                       *)
EXTENDS Sched2, SequencesExt
CONSTANTS N, R
VARIABLES heap, ix, q, h     \* sequence of entries, places (0 if not in it), the queue, the program
vars == <<heap, ix, q, h>>
Mod == 1..N
Times == {<<x, 0>> : x \in 0..R} \cup {Inf}
El(m, p) == [m |-> m, p |-> p]
Init == heap = <<>> /\ ix = [m \in Mod |-> 0] /\ q = <<>> /\ h = ""

Swap(s, i, j) == [heap |-> [s.heap EXCEPT ![i] = s.heap[j], ![j] = s.heap[i]],
                  ix   |-> [s.ix EXCEPT ![s.heap[i].m] = j, ![s.heap[j].m] = i], at |-> j]
RECURSIVE Up(_), Down(_)
Up(s) == LET p == s.at \div 2 IN
    IF s.at > 1 /\ Lt(s.heap[s.at].p, s.heap[p].p) THEN Up(Swap(s, s.at, p)) ELSE s
Down(s) ==
    LET l == 2 * s.at
        c == IF l < Len(s.heap) /\ Lt(s.heap[l + 1].p, s.heap[l].p) THEN l + 1 ELSE l
    IN IF l <= Len(s.heap) /\ Lt(s.heap[c].p, s.heap[s.at].p) THEN Down(Swap(s, s.at, c)) ELSE s
At(hp, x, i) == [heap |-> hp, ix |-> x, at |-> i]
Added(m, p) == Up(At(Append(heap, El(m, p)), [ix EXCEPT ![m] = Len(heap) + 1], Len(heap) + 1))
Updated(m, p) == Down(Up(At([heap EXCEPT ![ix[m]].p = p], ix, ix[m])))
Removed(i) ==
    LET n    == Len(heap)
        last == heap[n]
        hp   == SubSeq(IF i = n THEN heap ELSE [heap EXCEPT ![i] = last], 1, n - 1)
        x    == [(IF i = n THEN ix ELSE [ix EXCEPT ![last.m] = i]) EXCEPT ![heap[i].m] = 0]
    IN IF i < n THEN Down(Up(At(hp, x, i))) ELSE At(hp, x, i)
Set(s) == heap' = s.heap /\ ix' = s.ix
Str(p) == IF p = Inf THEN "i" ELSE ToString(p[1])
Do(c, m, p) == h' = h \o c \o " " \o ToString(m) \o (IF p = <<>> THEN "" ELSE " " \o Str(p)) \o ";"

AddM == \E m \in Mod, p \in Times :
    /\ ix[m] = 0 /\ (m > 1 => ix[m - 1] # 0)
    /\ Set(Added(m, p)) /\ q' = Put2(q, m, p) /\ Do("add", m, p)
UpdM == \E m \in Mod, p \in Times :
    /\ ix[m] # 0 /\ Set(Updated(m, p)) /\ q' = Put2(q, m, p) /\ Do("upd", m, p)
RmM == \E m \in Mod :
    /\ ix[m] # 0 /\ Set(Removed(ix[m])) /\ q' = Out2(q, m) /\ Do("rm", m, <<>>)
NextM == heap # <<>> /\ Set(Removed(1)) /\ q' = Out2(q, heap[1].m) /\ h' = h \o "pop;"
(* Requests that are refused *)
Refused == /\ UNCHANGED <<heap, ix, q>>
           /\ \E m \in Mod : \/ ix[m] # 0 /\ Do("add", m, <<0, 0>>)
                             \/ ix[m] = 0 /\ (Do("rm", m, <<>>) \/ Do("upd", m, <<0, 0>>))
Next == AddM \/ UpdM \/ RmM \/ NextM \/ Refused
Spec == Init /\ [][Next]_vars
View == [i \in DOMAIN heap |-> heap[i].p]
EmitT == PrintT("SCRIPT " \o h')
-----------------------------------------------------------------------------
Refines == q = [m \in {x \in Mod : ix[x] # 0} |-> heap[ix[m]].p]
Places == \A i \in DOMAIN heap : ix[heap[i].m] = i
Heap == \A i \in 2..Len(heap) : Le(heap[i \div 2].p, heap[i].p)
Reports == heap # <<>> => heap[1].p = MinTime(q) /\ heap[1].m \in Imminent(q)
=============================================================================

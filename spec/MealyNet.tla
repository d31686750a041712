------------------------------ MODULE MealyNet ------------------------------
(* The output of networks of Mealy models: every network of N Mealy models,   *)
(* which of them are due (I), which get input from a source (F) and how they  *)
(* answer to each kind of event (B).                                          *)
(*                                                                            *)
(* The module contains the algorithm of the simulator, which revises the      *)
(* output of Mealy models until it is consistent, taking models in the order  *)
(* of their addresses; here the models are numbered in that order and all     *)
(* networks are tried, so all orders are.  It is checked that the algorithm   *)
(* ends, that it finds the only consistent solution if there is no loop of    *)
(* Mealy models, and otherwise finds a consistent solution or stops at a      *)
(* model that is on a loop.  Each network is also printed as a script for the *)
(* harness.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions
CONSTANTS N, B, BC      \* size, answers in networks without and with loops
VARIABLES D, I, F, b, go
vars == <<D, I, F, b, go>>
M == 1..N
Sink == N + 2
Source == N + 1

RECURSIVE Reach(_, _)
Reach(R, X) == LET Y == X \cup {e[2] : e \in {x \in R : x[1] \in X}} IN IF Y = X THEN X ELSE Reach(R, Y)
Loops(R) == {m \in M : m \in Reach(R, {e[2] : e \in {x \in R : x[1] = m}})}
Acyclic(R) == Loops(R) = {}

Init == D \in SUBSET (M \X M) /\ I \in SUBSET M /\ F = {} /\ b = [m \in M |-> 0] /\ go = FALSE
Next == /\ ~go /\ go' = TRUE /\ UNCHANGED <<D, I>>
        /\ F' \in SUBSET M
        /\ b' \in IF Acyclic(D) THEN [M -> B] ELSE [M -> BC]
Spec == Init /\ [][Next]_vars

(* An answer is a sum of 1 internal, 2 confluent, 4 external *)
Answers(k, m) == CASE k = "int" -> b[m] % 2 = 1 [] k = "conf" -> (b[m] \div 2) % 2 = 1 [] k = "ext" -> (b[m] \div 4) % 2 = 1
Kind(m, in) == IF in = <<>> THEN "int" ELSE IF m \in I THEN "conf" ELSE "ext"
Value(m, in) == m * 1000 + FoldLeft(LAMBDA a, x : a + (x[2] % 100) + 1, 0, in)
OutputOf(m, in) == IF Answers(Kind(m, in), m) THEN <<Value(m, in)>> ELSE <<>>
SourceValue == (N + 1) * 1000
Ordered(S) == SetToSortSeq(S, <)
Sent(m) == Ordered({e[2] : e \in {x \in D : x[1] = m}}) \o <<Sink>>

-----------------------------------------------------------------------------
(* The algorithm.  st: active, orphaned models; rev: model -> revisable input *)
(* <<from, value>>; out: model -> output; rec: model -> receivers of it;      *)
(* thrown: model that reported a loop, or 0; fuel: bound on the calls         *)
RECURSIVE Retract(_, _)
Retract(st, m) ==
    IF st.rec[m] = {} THEN st
    ELSE LET r == CHOOSE x \in st.rec[m] : \A y \in st.rec[m] : x <= y
             s1 == [st EXCEPT !.rec[m] = @ \ {r}, !.rev[r] = SelectSeq(@, LAMBDA x : x[1] # m)]
             s2 == IF r \in M THEN Retract([s1 EXCEPT !.orphaned = @ \cup {r}], r) ELSE s1
         IN Retract(s2, m)
RECURSIVE Calc(_, _, _)
Calc(st, m, path) ==
    IF st.thrown # 0 \/ st.fuel = 0 THEN st ELSE
    LET s0 == [Retract([st EXCEPT !.active = @ \cup {m}, !.orphaned = @ \ {m}, !.fuel = @ - 1], m) EXCEPT !.out[m] = <<>>]
        in == s0.rev[m]
    IN IF in = <<>> /\ m \notin I THEN s0 ELSE
       LET o  == OutputOf(m, in)
           to == IF o = <<>> THEN <<>> ELSE Sent(m)
           s1 == FoldLeft(LAMBDA s, r :
                    IF s.thrown # 0 THEN s
                    ELSE IF r \in path \cup {m} THEN [s EXCEPT !.thrown = m]
                    ELSE [s EXCEPT !.rev[r] = Append(@, <<m, o[1]>>), !.rec[m] = @ \cup {r},
                                   !.active = IF r \in M THEN @ ELSE @ \cup {r}],
                 [s0 EXCEPT !.out[m] = o], to)
       IN FoldLeft(LAMBDA s, r : Calc(s, r, path \cup {m}), s1, Ordered(Range(to) \cap M))
RECURSIVE All(_)
All(st) == IF st.orphaned = {} \/ st.thrown # 0 \/ st.fuel = 0 THEN st
           ELSE All(Calc(st, CHOOSE x \in st.orphaned : \A y \in st.orphaned : x <= y, {}))
Result == All([active |-> {}, orphaned |-> F \cup I, thrown |-> 0, fuel |-> 1000,
               rev |-> [m \in 1..(N + 2) |-> IF m \in F THEN << <<Source, SourceValue>> >> ELSE <<>>],
               out |-> [m \in M |-> <<>>], rec |-> [m \in M |-> {}]])
-----------------------------------------------------------------------------
(* Consistent outputs *)
Bag(q) == [x \in Range(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
InputFrom(out, m) ==
    (IF m \in F THEN << <<Source, SourceValue>> >> ELSE <<>>)
    \o FoldLeft(LAMBDA a, x : IF out[x] # <<>> /\ m \in Range(Sent(x)) THEN Append(a, <<x, out[x][1]>>) ELSE a,
                <<>>, [x \in M |-> x])
Live(out, m) == InputFrom(out, m) # <<>> \/ m \in I
Consistent(st) ==
    /\ \A m \in M : /\ Bag(st.rev[m]) = Bag(InputFrom(st.out, m))
                    /\ st.out[m] = IF Live(st.out, m) THEN OutputOf(m, st.rev[m]) ELSE <<>>
                    /\ Live(st.out, m) => m \in st.active
    /\ Bag(st.rev[Sink]) = Bag(InputFrom(st.out, Sink))
(* The consistent solution of a network without loops *)
RECURSIVE Solve(_, _)
Solve(out, i) == IF i = 0 THEN out
                 ELSE Solve([m \in M |-> IF Live(out, m) THEN OutputOf(m, InputFrom(out, m)) ELSE <<>>], i - 1)
Solution == Solve([m \in M |-> <<>>], N + 1)

Ends == go => Result.fuel > 0
Right == go => LET r == Result IN
    IF Acyclic(D) THEN r.thrown = 0 /\ Consistent(r) /\ r.out = Solution
    ELSE IF r.thrown # 0 THEN r.thrown \in Loops(D)
    ELSE Consistent(r) /\ \A m \in M : m \notin Reach({e \in D : r.out[e[1]] # <<>>},
                                                {e[2] : e \in {x \in D : x[1] = m /\ r.out[m] # <<>>}})
-----------------------------------------------------------------------------
Str(x) == ToString(x)
Cat(q) == FoldLeft(LAMBDA a, x : a \o x, "", q)
Script ==
    "n " \o Str(N + 2) \o " " \o Str(2 * N + 1) \o " 0;"
    \o Cat([m \in M |-> "m " \o Str(m) \o " 1 " \o Str(b[m]) \o " " \o Str(N + m)
                        \o (IF m \in I THEN " 1,2,i;" ELSE " 2,2,i;")])
    \o "m " \o Str(Source) \o " 0 1 " \o Str(2 * N + 1) \o " 1,i;m " \o Str(Sink) \o " 0 0 - i;begin;"
    \o Cat([m \in 1..(N + 2) |-> "add " \o Str(m) \o ";"])
    \o Cat([m \in M |-> "pa " \o Str(m) \o " " \o Str(m) \o ";pa " \o Str(N + m) \o " " \o Str(Sink) \o ";"])
    \o Cat([i \in 1..Cardinality(D) |-> LET e == SetToSeq(D)[i] IN "pp " \o Str(N + e[1]) \o " " \o Str(e[2]) \o ";"])
    \o Cat([i \in 1..Cardinality(F) |-> "pp " \o Str(2 * N + 1) \o " " \o Str(SetToSeq(F)[i]) \o ";"])
    \o "new graph 0;step;exec;quit;"
Emit == go => PrintT("SCRIPT " \o Script)
=============================================================================

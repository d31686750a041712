---------------------------- MODULE CoupledTree -----------------------------
(* Coupled models.  A tree is a function from coupled models to records      *)
(*   a : set of models, c : set of coupled models,                           *)
(*   pa : set of <<pin, model>>, pp : set of <<pin, pin>>.                   *)
(* It need not be a strict hierarchy: parts may be shared.                   *)
EXTENDS Structure

NoParts == [a |-> {}, c |-> {}, pa |-> {}, pp |-> {}]

(* Number of ways in which coupled model c occurs below (or is) coupled model x *)
RECURSIVE Occ(_, _, _)
Occ(ct, x, c) ==
    FoldLeft(LAMBDA acc, y : acc + Occ(ct, y, c), IF x = c THEN 1 ELSE 0, SetToSeq(ct[x].c))

(* The requests that add, and that remove, all that is in coupled model x *)
RECURSIVE AddOps(_, _)
AddOps(ct, x) ==
    LET mk(k, p, q, m) == [k |-> k, p |-> p, q |-> q, m |-> m]
        own == [i \in 1..Cardinality(ct[x].a)  |-> mk("add", 0, 0, SetToSeq(ct[x].a)[i])]
            \o [i \in 1..Cardinality(ct[x].pa) |-> LET e == SetToSeq(ct[x].pa)[i] IN mk("pa", e[1], 0, e[2])]
            \o [i \in 1..Cardinality(ct[x].pp) |-> LET e == SetToSeq(ct[x].pp)[i] IN mk("pp", e[1], e[2], 0)]
    IN FoldLeft(LAMBDA acc, y : acc \o AddOps(ct, y), own, SetToSeq(ct[x].c))

Opposite(k) == CASE k = "add" -> "rem" [] k = "pa" -> "dpa" [] k = "pp" -> "dpp"
(* Connections are taken out before models *)
RemOps(ct, x) ==
    LET s == AddOps(ct, x)
        t == SelectSeq(s, LAMBDA o : o.k # "add") \o SelectSeq(s, LAMBDA o : o.k = "add")
    IN [i \in DOMAIN t |-> [t[i] EXCEPT !.k = Opposite(@)]]

Flatten(ct, root) == ApplyAll(EmptyG, AddOps(ct, root))

RECURSIVE Times(_, _)
Times(n, s) == IF n = 0 THEN <<>> ELSE s \o Times(n - 1, s)

(* Edits of a tree are records with fields k, c, d, p, q, m. *)
Edit(ct, e) ==
    CASE e.k = "cadd" -> [ct EXCEPT ![e.c].a = @ \cup {e.m}]
      [] e.k = "crem" -> [ct EXCEPT ![e.c].a = @ \ {e.m}, ![e.c].pa = {x \in @ : x[2] # e.m}]
      [] e.k = "cpa"  -> [ct EXCEPT ![e.c].pa = @ \cup {<<e.p, e.m>>}]
      [] e.k = "cdpa" -> [ct EXCEPT ![e.c].pa = @ \ {<<e.p, e.m>>}]
      [] e.k = "cpp"  -> [ct EXCEPT ![e.c].pp = @ \cup {<<e.p, e.q>>}]
      [] e.k = "cdpp" -> [ct EXCEPT ![e.c].pp = @ \ {<<e.p, e.q>>}]
      [] e.k = "ccadd" -> [ct EXCEPT ![e.c].c = @ \cup {e.d}]
      [] e.k = "ccrem" -> [ct EXCEPT ![e.c].c = @ \ {e.d}]

(* The requests that an edit makes for one occurrence of the edited model *)
EditOps1(ct, e) ==
    LET mk(k) == [k |-> k, p |-> e.p, q |-> e.q, m |-> e.m] IN
    CASE e.k = "cadd" /\ e.m \notin ct[e.c].a -> <<mk("add")>>
      [] e.k = "crem" /\ e.m \in ct[e.c].a ->
            LET es == SetToSeq({x \in ct[e.c].pa : x[2] = e.m})
            IN [i \in DOMAIN es |-> [k |-> "dpa", p |-> es[i][1], q |-> 0, m |-> e.m]] \o <<mk("rem")>>
      [] e.k = "cpa" /\ <<e.p, e.m>> \notin ct[e.c].pa -> <<mk("pa")>>
      [] e.k = "cdpa" /\ <<e.p, e.m>> \in ct[e.c].pa -> <<mk("dpa")>>
      [] e.k = "cpp" /\ <<e.p, e.q>> \notin ct[e.c].pp -> <<mk("pp")>>
      [] e.k = "cdpp" /\ <<e.p, e.q>> \in ct[e.c].pp -> <<mk("dpp")>>
      [] e.k = "ccadd" /\ e.d \notin ct[e.c].c -> AddOps(ct, e.d)
      [] e.k = "ccrem" /\ e.d \in ct[e.c].c -> RemOps(ct, e.d)
      [] OTHER -> <<>>
EditOps(ct, root, e) == Times(Occ(ct, root, e.c), EditOps1(ct, e))

(* Couplings are only made to models that are part of the same coupled model *)
(* and there are no loops of membership.                                     *)
RECURSIVE Below(_, _)
Below(ct, x) == {x} \cup UNION {Below(ct, y) : y \in ct[x].c}
TreeOK(ct) == \A c \in DOMAIN ct : \A e \in ct[c].pa : e[2] \in ct[c].a
EditOK(ct, e) ==
    /\ e.k = "cpa" => e.m \in ct[e.c].a
    /\ e.k = "ccadd" => e.c \notin Below(ct, e.d)
=============================================================================

----------------------------- MODULE Structure ------------------------------
(* The structure that is simulated: a graph with counted instances of models *)
(* and counted connections.  A structure is a record                         *)
(*   mem : model -> number of instances                                      *)
(*   pp  : <<pin, pin>> -> number of instances of the connection             *)
(*   pa  : <<pin, model>> -> number of instances of the connection           *)
(* with only positive numbers, so that the domains are the sets of members   *)
(* and of existing connections.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Cnt(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
Inc(b, x) == IF x \in DOMAIN b THEN [b EXCEPT ![x] = @ + 1] ELSE b @@ (x :> 1)
Dec(b, x) == IF x \notin DOMAIN b THEN b
             ELSE IF b[x] = 1 THEN [y \in DOMAIN b \ {x} |-> b[y]]
             ELSE [b EXCEPT ![x] = @ - 1]
(* Take one from each of the elements of X *)
DecAll(b, X) == [y \in {z \in DOMAIN b : ~(z \in X /\ b[z] = 1)} |->
                    IF y \in X THEN b[y] - 1 ELSE b[y]]
Without(b, X) == [y \in DOMAIN b \ X |-> b[y]]

(* Bags as functions, from sequences *)
BagOf(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
SameBag(s, t) == Len(s) = Len(t) /\ BagOf(s) = BagOf(t)

EmptyG == [mem |-> <<>>, pp |-> <<>>, pa |-> <<>>]
Members(g) == DOMAIN g.mem

AddModel(g, m) == [g EXCEPT !.mem = Inc(@, m)]
RemModel(g, m) ==
    IF m \notin Members(g) THEN g
    ELSE IF g.mem[m] > 1 THEN [g EXCEPT !.mem = Dec(@, m)]
    ELSE [g EXCEPT !.mem = Dec(@, m), !.pa = Without(@, {e \in DOMAIN @ : e[2] = m})]
ConPP(g, p, q) == [g EXCEPT !.pp = Inc(@, <<p, q>>)]
DisPP(g, p, q) == [g EXCEPT !.pp = Dec(@, <<p, q>>)]
ConPA(g, p, m) == [g EXCEPT !.pa = Inc(@, <<p, m>>)]
DisPA(g, p, m) == [g EXCEPT !.pa = Dec(@, <<p, m>>)]
(* One instance of each connection that begins or ends at p is removed *)
RemPin(g, p) == [g EXCEPT !.pa = DecAll(@, {e \in DOMAIN @ : e[1] = p}),
                          !.pp = DecAll(@, {e \in DOMAIN @ : e[1] = p \/ e[2] = p})]

(* Requests for changes are records with the fields k (kind), p, q, m *)
Apply(g, o) ==
    CASE o.k = "add" -> AddModel(g, o.m)
      [] o.k = "rem" -> RemModel(g, o.m)
      [] o.k = "pp"  -> ConPP(g, o.p, o.q)
      [] o.k = "dpp" -> DisPP(g, o.p, o.q)
      [] o.k = "pa"  -> ConPA(g, o.p, o.m)
      [] o.k = "dpa" -> DisPA(g, o.p, o.m)
      [] o.k = "rp"  -> RemPin(g, o.p)
ApplyAll(g, os) == FoldLeft(Apply, g, os)

(* Models that were not members at some time while the requests os are       *)
(* applied in their order, and are members in the end because of a later     *)
(* request: these start anew.                                                *)
Joined(g, os) ==
    FoldLeft(LAMBDA acc, o :
                LET h == Apply(acc[1], o) IN
                << h,
                   (acc[2] \cap Members(h)) \cup (Members(h) \ Members(acc[1])) >>,
             <<g, {}>>, os)[2]

(* All deliveries of a value on pin p: a sequence of <<pin, model>> with one *)
(* entry for each loop free chain of pins from p to a pin with that model.   *)
RECURSIVE RouteFrom(_, _, _)
RouteFrom(g, p, seen) ==
    LET direct == SetToSeq({e \in DOMAIN g.pa : e[1] = p})
        next   == SetToSeq({e[2] : e \in {x \in DOMAIN g.pp : x[1] = p}} \ (seen \cup {p}))
    IN  FoldLeft(LAMBDA acc, q : acc \o RouteFrom(g, q, seen \cup {p}), direct, next)
Route(g, p) == RouteFrom(g, p, {})
Reaches(g, p) == LET r == Route(g, p) IN {r[i][2] : i \in DOMAIN r}

StructureOK(g) ==
    /\ \A m \in DOMAIN g.mem : g.mem[m] > 0
    /\ \A e \in DOMAIN g.pp : g.pp[e] > 0
    /\ \A e \in DOMAIN g.pa : g.pa[e] > 0 /\ e[2] \in Members(g)
=============================================================================

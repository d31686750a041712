---- MODULE FcmpTrace ----
(* Checks recorded executions, one event per line, against Fcmp.  Written by *)
(* tools/mktrace.py.  A scenario starts with a Reset event.  After an event   *)
(* that breaks a rule the rest of the scenario is skipped, unless the next    *)
(* state is well defined all the same (the rules in FcmpSoft).               *)
EXTENDS Fcmp, Memory, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
FcmpSoft == {}
VARIABLES l, s, live
vars == <<l, s, live>>
Init == l = 1 /\ s = <<>> /\ live = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF ev.e = "Reset" THEN s' = FcmpInit(ev) /\ live' = TRUE
       ELSE IF ~live THEN UNCHANGED <<s, live>>
       ELSE IF ev.e = "Heap"
       THEN /\ UNCHANGED <<s, live>>
            /\ HeapBad(ev) = {} \/ PrintT(<<"VIOLATED", l, HeapBad(ev), ev.e>>)
       ELSE LET bad == FcmpBad(s, ev) IN
            IF bad = {} THEN s' = FcmpDo(s, ev) /\ live' = TRUE
            ELSE /\ PrintT(<<"VIOLATED", l, bad, ev.e>>)
                 /\ IF bad \subseteq FcmpSoft THEN s' = FcmpDo(s, ev) /\ live' = TRUE
                    ELSE s' = <<>> /\ live' = FALSE
Spec == Init /\ [][Next]_vars
View == l
Complete == PrintT(<<"COMPLETE", TLCGet("stats").diameter - 1, Len(Trace)>>)
====

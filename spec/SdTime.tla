------------------------------ MODULE SdTime --------------------------------
(* Super dense time as a data type: order, addition, difference, reading and *)
(* writing.  Each event has the arguments and the result of one operation.   *)
EXTENDS DevsTime, FiniteSets, TLC
SdTimeInit(ev) == <<>>
Order(a, b) == <<a = b, a # b, Lt(a, b), Lt(a, b) \/ a = b, Lt(b, a), Lt(b, a) \/ a = b>>
SdTimeBad(s, ev) ==
    CASE ev.e = "Cmp" -> IF ev.r = Order(ev.a, ev.b) THEN {} ELSE {"sd-order"}
      [] ev.e = "Add" -> IF ev.r = Add(ev.a, ev.b) /\ ev.q = ev.r THEN {} ELSE {"sd-add"}
      [] ev.e = "Sub" -> \* only for a later time and an earlier one
            (IF ev.r = Sub(ev.a, ev.b) /\ ev.q = ev.r THEN {} ELSE {"sd-sub"})
            \cup (IF ev.back = ev.a THEN {} ELSE {"sd-back"})
      [] ev.e = "Get" -> IF ev.r = ev.a THEN {} ELSE {"sd-get"}
      [] ev.e = "IO"  -> IF ev.r = ev.a THEN {} ELSE {"sd-io"}
      [] ev.e = "Const" ->
            (IF ev.zero = Zero /\ ev.eps = <<0, 1>> THEN {} ELSE {"sd-const"})
            \cup (IF ev.top THEN {} ELSE {"sd-const"})
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
SdTimeDo(s, ev) == s
=============================================================================

------------------------------- MODULE Finder --------------------------------
(* One search for state events in an interval.  The system is                 *)
(*   q = <<clock, x, v, w, u, y>>, y' = -2,  x' = v + w * t + u * t * t / 2 with the time t *)
(* since the start, where x' keeps its sign in the interval, so that every event        *)
(* function changes its sign at most once.  Times and x are multiples of      *)
(* 1/4096.  The event functions are i + 1 -> sg * (x - a) or sg * (clock - a), *)
(* in the discontinuous case only their signs.  A search is recorded as       *)
(*   q0, h0     start and length of the interval                              *)
(*   z0, ze     signs of the event functions at its start and end             *)
(*   r, h, q    result, length afterwards, state returned                     *)
(*   z, f       signs in the returned state, flags                            *)
(*   mag        absolute values of the event functions there                  *)
(*   zb         signs in the exact state at the time h - tol (at the start if *)
(*              h is less than tol)                                           *)
EXTENDS Integers, Sequences, FiniteSets

Abs(a) == IF a < 0 THEN -a ELSE a
Flow(q, t) == <<q[1] + t, q[2] + q[3] * t + (q[4] * t * t) \div 8192 + (((q[5] * t * t) \div 4096) * t) \div 24576>>
Close(ev, a, b) == Abs(a - b) <= ev.sl
Differs(k, z0, z1) == IF k = "fast" \/ k = "spline" THEN z0 * z1 <= 0 ELSE z0 # z1
Diff(ev, z) == {i \in DOMAIN ev.z0 : Differs(ev.kind, ev.z0[i], z[i])}
Flagged(ev) == {i \in DOMAIN ev.f : ev.f[i]}

FinderInit(ev) == <<>>
FindBad(ev) ==
    LET end == Diff(ev, ev.ze)  now == Diff(ev, ev.z)
        still == ev.h = ev.h0 /\ ev.same
    IN (* the state is the one at the returned time, which is in the interval *)
       (IF ev.h < 0 \/ ev.h > ev.h0 THEN {"f-time"} ELSE {})
       \cup (IF ~(Close(ev, ev.q[1], Flow(ev.q0, ev.h)[1]) /\ Close(ev, ev.q[6], ev.q0[6] - 2 * ev.h) /\ Abs(ev.q[2] - Flow(ev.q0, ev.h)[2]) <= 4 * ev.sl) THEN {"f-state"} ELSE {})
       \cup (IF ev.kind = "null" \/ end = {}
             (* nothing to be found *)
             THEN (IF ev.r THEN {"f-false"} ELSE {}) \cup (IF ~still THEN {"f-time"} ELSE {})
                  \cup (IF ev.kind # "null" /\ Flagged(ev) # {} THEN {"f-flags"} ELSE {})
             ELSE IF ev.r
             THEN (IF Flagged(ev) # now \/ now = {} THEN {"f-flags"} ELSE {})
                  \cup (CASE ev.kind \in {"fast", "spline"} ->
                               IF \E i \in DOMAIN ev.z0 : ev.z0[i] # 0 /\ ev.h > ev.tol + ev.sl /\ Differs(ev.kind, ev.z0[i], ev.zb[i])
                               THEN {"f-late"} ELSE {}
                          [] ev.kind = "disc" -> IF ev.h > ev.tol + 1 THEN {"f-late"} ELSE {}
                          [] OTHER -> IF \E i \in now : ev.mag[i] > ev.tol + 1 THEN {"f-late"} ELSE {})
             ELSE (* the interval ends before the event *)
                  (IF now # {} THEN {"f-miss"} ELSE {})
                  \cup (IF ev.kind \in {"fast", "spline"} THEN {"f-miss"} ELSE {})
                  \cup (IF ev.h >= ev.h0 \/ ev.h <= 0 THEN {"f-miss"} ELSE {})
                  \cup (IF Flagged(ev) # {} THEN {"f-flags"} ELSE {}))
FinderBad(s, ev) ==
    CASE ev.e = "Find" -> FindBad(ev)
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang" -> {"hang"}
FinderDo(s, ev) == s
=============================================================================

---- MODULE CvodeWorlds ----
(* Several instances of Cvode in one process.  An event of instance ev.u is a *)
(* step of this instance, as Cvode says, and leaves the others alone.        *)
(* Written by tools/mktrace.py.                                              *)
EXTENDS Cvode, TLC
CvodeSoft == {}
WorldsInit(ev) == <<>>
WorldsBad(s, ev) ==
    CASE ev.e = "World" -> {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
      [] OTHER -> CvodeBad(s[ev.u], ev)
WorldsDo(s, ev) ==
    IF ev.e = "World" THEN (ev.u :> CvodeInit(ev)) @@ s ELSE [s EXCEPT ![ev.u] = CvodeDo(s[ev.u], ev)]
====

---- MODULE SolverWorlds ----
(* Several instances of Solver in one process.  An event of instance ev.u is a *)
(* step of this instance, as Solver says, and leaves the others alone.        *)
(* Written by tools/mktrace.py.                                              *)
EXTENDS Solver, TLC
SolverSoft == {}
WorldsInit(ev) == <<>>
WorldsBad(s, ev) ==
    CASE ev.e = "World" -> {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
      [] OTHER -> SolverBad(s[ev.u], ev)
WorldsDo(s, ev) ==
    IF ev.e = "World" THEN (ev.u :> SolverInit(ev)) @@ s ELSE [s EXCEPT ![ev.u] = SolverDo(s[ev.u], ev)]
====

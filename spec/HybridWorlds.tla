---- MODULE HybridWorlds ----
(* Several instances of Hybrid in one process.  An event of instance ev.u is a *)
(* step of this instance, as Hybrid says, and leaves the others alone.        *)
(* Written by tools/mktrace.py.                                              *)
EXTENDS Hybrid, TLC
HybridSoft == {}
WorldsInit(ev) == <<>>
WorldsBad(s, ev) ==
    CASE ev.e = "World" -> {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
      [] OTHER -> HybridBad(s[ev.u], ev)
WorldsDo(s, ev) ==
    IF ev.e = "World" THEN (ev.u :> HybridInit(ev)) @@ s ELSE [s EXCEPT ![ev.u] = HybridDo(s[ev.u], ev)]
====

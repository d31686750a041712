---- MODULE FinderWorlds ----
(* Several instances of Finder in one process.  An event of instance ev.u is a *)
(* step of this instance, as Finder says, and leaves the others alone.        *)
(* Written by tools/mktrace.py.                                              *)
EXTENDS Finder, TLC
FinderSoft == {}
WorldsInit(ev) == <<>>
WorldsBad(s, ev) ==
    CASE ev.e = "World" -> {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
      [] OTHER -> FinderBad(s[ev.u], ev)
WorldsDo(s, ev) ==
    IF ev.e = "World" THEN (ev.u :> FinderInit(ev)) @@ s ELSE [s EXCEPT ![ev.u] = FinderDo(s[ev.u], ev)]
====

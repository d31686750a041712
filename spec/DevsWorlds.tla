---- MODULE DevsWorlds ----
(* Several instances of Devs in one process.  An event of instance ev.u is a *)
(* step of this instance, as Devs says, and leaves the others alone.        *)
(* Written by tools/mktrace.py.                                              *)
EXTENDS Devs, TLC
WorldsInit(ev) == <<>>
WorldsBad(s, ev) ==
    CASE ev.e = "World" -> {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
      [] OTHER -> Bad(s[ev.u], ev)
WorldsDo(s, ev) ==
    IF ev.e = "World" THEN (ev.u :> Init0(ev)) @@ s ELSE [s EXCEPT ![ev.u] = Do(s[ev.u], ev)]
====

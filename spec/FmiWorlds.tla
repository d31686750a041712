---- MODULE FmiWorlds ----
(* Several instances of Fmi in one process.  An event of instance ev.u is a *)
(* step of this instance, as Fmi says, and leaves the others alone.        *)
(* Written by tools/mktrace.py.                                              *)
EXTENDS Fmi, TLC
FmiSoft == {}
WorldsInit(ev) == <<>>
WorldsBad(s, ev) ==
    CASE ev.e = "World" -> {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
      [] OTHER -> FmiBad(s[ev.u], ev)
WorldsDo(s, ev) ==
    IF ev.e = "World" THEN (ev.u :> FmiInit(ev)) @@ s ELSE [s EXCEPT ![ev.u] = FmiDo(s[ev.u], ev)]
====

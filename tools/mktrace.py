#!/usr/bin/env python3
"""Writes spec/<X>Trace.tla and .cfg, which all have the same shape: the state s of module X starts
with <X>Init(ev) at a Reset event, <X>Bad(s, ev) is the set of broken rules, <X>Do(s, ev) the next state."""
import os
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
T = '''---- MODULE %(X)sTrace ----
(* Checks recorded executions, one event per line, against %(X)s.  Written by *)
(* tools/mktrace.py.  A scenario starts with a Reset event.  After an event   *)
(* that breaks a rule the rest of the scenario is skipped, unless the next    *)
(* state is well defined all the same (the rules in %(X)sSoft).               *)
EXTENDS %(X)s, Memory, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
%(soft)sVARIABLES l, s, live
vars == <<l, s, live>>
Init == l = 1 /\\ s = <<>> /\\ live = FALSE
Next ==
    /\\ l <= Len(Trace)
    /\\ l' = l + 1
    /\\ LET ev == Trace[l] IN
       IF ev.e = "Reset" THEN s' = %(i)s(ev) /\\ live' = TRUE
       ELSE IF ~live THEN UNCHANGED <<s, live>>
       ELSE IF ev.e = "Heap"
       THEN /\\ UNCHANGED <<s, live>>
            /\\ HeapBad(ev) = {} \\/ PrintT(<<"VIOLATED", l, HeapBad(ev), ev.e>>)
       ELSE LET bad == %(p)sBad(s, ev) IN
            IF bad = {} THEN s' = %(p)sDo(s, ev) /\\ live' = TRUE
            ELSE /\\ PrintT(<<"VIOLATED", l, bad, ev.e>>)
                 /\\ IF bad \\subseteq %(X)sSoft THEN s' = %(p)sDo(s, ev) /\\ live' = TRUE
                    ELSE s' = <<>> /\\ live' = FALSE
Spec == Init /\\ [][Next]_vars
View == l
%(inv)sComplete == PrintT(<<"COMPLETE", TLCGet("stats").diameter - 1, Len(Trace)>>)
====
'''
C = '''SPECIFICATION Spec
VIEW View
%sPOSTCONDITION Complete
CHECK_DEADLOCK FALSE
'''
# Several simulations in one process: the state has that of each simulation, and an event of simulation u is a step of
# this simulation only.  Each begins with a World event.
W = '''---- MODULE %(X)sWorlds ----
(* Several instances of %(X)s in one process.  An event of instance ev.u is a *)
(* step of this instance, as %(X)s says, and leaves the others alone.        *)
(* Written by tools/mktrace.py.                                              *)
EXTENDS %(X)s, TLC
%(soft)sWorldsInit(ev) == <<>>
WorldsBad(s, ev) ==
    CASE ev.e = "World" -> {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang"  -> {"hang"}
      [] OTHER -> %(p)sBad(s[ev.u], ev)
WorldsDo(s, ev) ==
    IF ev.e = "World" THEN (ev.u :> %(i)s(ev)) @@ s ELSE [s EXCEPT ![ev.u] = %(p)sDo(s[ev.u], ev)]
====
'''
def make(X, p=None, inv=None, soft=False):
    d = dict(X=X, p=X if p is None else p, i='Init0' if p == '' else (p or X) + 'Init', inv='Inv == live => %s\n' % inv if inv else '')
    d['soft'] = '' if soft else X + 'Soft == {}\n'
    open(os.path.join(S, X + 'Trace.tla'), 'w').write(T % d)
    open(os.path.join(S, X + 'Trace.cfg'), 'w').write(C % ('INVARIANT Inv\n' if inv else ''))
make('Sched')
make('Devs', '', 'StructureOK(s.g) /\\ TreeOK(s.ct)', True)
for X in ('SdTime', 'Fcmp', 'Pins', 'Twin', 'Hybrid', 'Finder', 'Solver', 'Fmi', 'Cvode', 'Spline'):
    make(X)
make('Sched2')
make('HybridNet', soft=True)
def worlds(X, p=None, soft=False):
    d = dict(X=X, p=X if p is None else p, i='Init0' if p == '' else (p or X) + 'Init', soft='' if soft else X + 'Soft == {}\n')
    open(os.path.join(S, X + 'Worlds.tla'), 'w').write(W % d)
    d = dict(X=X + 'Worlds', p='Worlds', i='WorldsInit', inv='', soft=X + 'WorldsSoft == %sSoft\n' % X)
    open(os.path.join(S, X + 'WorldsTrace.tla'), 'w').write(T % d)
    open(os.path.join(S, X + 'WorldsTrace.cfg'), 'w').write(C % '')
worlds('Devs', '', True)
worlds('Hybrid')
worlds('Solver')
worlds('Finder')
worlds('Cvode')
worlds('Fmi')

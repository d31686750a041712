--------------------------------- MODULE Fmi ----------------------------------
(* An FMU for model exchange (FMI 2.0) and the wrapper that makes a hybrid     *)
(* system of it.                                                               *)
(*                                                                             *)
(* Events whose names begin with m are calls that the wrapper makes of the FMU; *)
(* the others are calls that are made of the wrapper: a pair B E encloses the   *)
(* calls of the FMU in it.  Numbers are opaque except for times, which are also *)
(* given as whole numbers (ti, in 1/2^20).                                     *)
(* State fields                                                                *)
(*   mode    new, parsed, inst, init, event, cont, term, gone, unloaded, freed  *)
(*   tmp, ctx  0: not made yet, 1: there, 2: removed                            *)
(*   t, ti   time of the FMU              x    its continuous states           *)
(*   more    the last iteration of events asks for another one                 *)
(*   done    time of the last completed integration step or event              *)
(*   next    the time event that is announced (Forever if there is none)       *)
(*   asked   the FMU wants an event at the end of the last completed step      *)
(*   calls   calls of the FMU in the current call of the wrapper               *)
EXTENDS Integers, Sequences, TLC

Forever == 2000000000
Abs(a) == IF a < 0 THEN -a ELSE a

FmiInit(ev) == [nx |-> ev.nx, nz |-> ev.nz, cap |-> ev.cap, good |-> ev.good, tol |-> ev.tol, zero |-> ev.zero, one |-> ev.one,
                mode |-> "new", t |-> "none", ti |-> 0, x |-> ev.x, more |-> FALSE, iters |-> 0, done |-> 0, next |-> Forever, asked |-> FALSE,
                in |-> "make", q |-> <<>>, adv |-> FALSE, calls |-> <<>>, tmp |-> 0, ctx |-> 0, refused |-> FALSE]
Set(S) == [m \in S |-> TRUE]
Calls(s, k) == SelectSeq(s.calls, LAMBDA c : c.e = k)
Vec(s) == Append(s.x, s.t)
At(c, q) == c.s = q

(* ---------------------------------------------------------------- the FMU *)
(* In which modes may a function be called? *)
Modes(e) ==
    CASE e = "mParse" -> {"new"}
      [] e \in {"mDll", "mInst"} -> {"parsed"}
      [] e = "mSetup" -> {"inst"}
      [] e = "mEnterInit" -> {"inst"}
      [] e = "mExitInit" -> {"init"}
      [] e = "mNew" -> {"event"}
      [] e = "mEnterCont" -> {"event"}
      [] e = "mEnterEvent" -> {"cont"}
      [] e = "mTime" -> {"event", "cont"}
      [] e \in {"mStates", "mDer", "mInd", "mDir", "mComp"} -> {"cont"}
      [] e = "mGet" -> {"init", "event", "cont"}
      [] e = "mTerm" -> {"inst", "init", "event", "cont"}
      [] e = "mFreeInst" -> {"term"}
      [] e \in {"mGetVar"} -> {"inst", "init", "event", "cont", "term"}
      [] e \in {"mSetVar"} -> {"inst", "init", "event", "cont"}
      [] e \in {"mFreeCtx", "mRmTmp"} -> {"new", "parsed", "inst", "freed"}
      [] OTHER -> {"new", "parsed", "inst", "init", "event", "cont", "term", "gone", "unloaded"}
CallBad(s, ev) ==
    (IF s.mode \notin Modes(ev.e) THEN {"m-mode"} ELSE {})
    \cup (IF ev.e = "mTime" /\ ev.ti < s.done THEN {"m-time"} ELSE {})
    \cup (IF ev.e \in {"mStates", "mGet", "mDer"} /\ ev.n # s.nx THEN {"m-value"} ELSE {})
    \cup (IF ev.e = "mInd" /\ ev.n # s.nz THEN {"m-value"} ELSE {})
    \cup (IF ev.e = "mEnterCont" /\ (s.more \/ s.iters = 0) THEN {"m-iterate"} ELSE {})
    \cup (IF ev.e = "mNew" /\ s.iters > 0 /\ ~s.more /\ s.in # "event" THEN {"m-iterate"} ELSE {})
    \cup (IF ev.e = "mSetup" /\ (ev.tol # s.tol \/ ev.start # s.zero \/ ev.def # 1 \/ ev.stop # 0) THEN {"m-setup"} ELSE {})
    \cup (IF ev.e \in {"mDll", "mInst"} /\ ~ev.me THEN {"m-setup"} ELSE {})
    \cup (IF ev.e = "mRmTmp" /\ (~ev.ok \/ s.tmp # 1) THEN {"m-load"} ELSE {})
    \cup (IF ev.e = "mFreeCtx" /\ s.ctx # 1 THEN {"m-load"} ELSE {})
    \cup (IF ev.e = "mCtx" /\ ~ev.ok THEN {"m-load"} ELSE {})
    \* The time event announced or asked for is not passed by
    \cup (IF ev.e = "mComp" /\ s.asked THEN {"m-asked"} ELSE {})
    \cup (IF ev.e = "mComp" /\ s.ti > s.next + 2 THEN {"m-due"} ELSE {})
    \cup (IF ev.e = "mDir" /\ ~ev.ok THEN {"m-jac"} ELSE {})
    \cup (IF ev.e = "mDestroy" /\ s.mode # "gone" THEN {"m-end"} ELSE {})
    \* An FMU that is refused is let go of at once
    \cup (IF ev.e = "mFree" /\ <<s.mode, s.in>> \notin {<<"unloaded", "del">>, <<"parsed", "make">>} THEN {"m-end"} ELSE {})
    \cup (IF ev.e \in {"mTerm", "mFreeInst", "mDestroy"} /\ s.in # "del" THEN {"m-end"} ELSE {})
    \cup (IF ev.e = "mReset" THEN {"m-mode"} ELSE {})
CallDo(s0, ev) ==
    LET s == [s0 EXCEPT !.calls = Append(@, [e |-> ev.e, s |-> Vec(s0), ev |-> ev])] IN
    CASE ev.e = "mTmp" -> [s EXCEPT !.tmp = 1]
      [] ev.e = "mRmTmp" -> [s EXCEPT !.tmp = 2]
      [] ev.e = "mCtx" -> [s EXCEPT !.ctx = 1]
      [] ev.e = "mFreeCtx" -> [s EXCEPT !.ctx = 2]
      [] ev.e = "mParse" -> IF ev.ok THEN [s EXCEPT !.mode = "parsed"] ELSE s
      [] ev.e = "mInst" -> [s EXCEPT !.mode = "inst"]
      [] ev.e = "mSetup" -> [s EXCEPT !.t = s.zero]
      [] ev.e = "mEnterInit" -> [s EXCEPT !.mode = "init"]
      [] ev.e = "mExitInit" -> [s EXCEPT !.mode = "event", !.iters = 0, !.more = TRUE]
      [] ev.e = "mEnterEvent" -> [s EXCEPT !.mode = "event", !.iters = 0, !.more = TRUE]
      [] ev.e = "mNew" -> [s EXCEPT !.x = ev.x, !.more = ev.more, !.iters = @ + 1, !.next = ev.next, !.asked = FALSE]
      [] ev.e = "mEnterCont" -> [s EXCEPT !.mode = "cont"]
      [] ev.e = "mTime" -> [s EXCEPT !.t = ev.t, !.ti = ev.ti]
      [] ev.e = "mStates" -> [s EXCEPT !.x = ev.x]
      [] ev.e = "mSetVar" -> [s EXCEPT !.x = ev.x]
      [] ev.e = "mComp" -> [s EXCEPT !.done = s.ti, !.asked = ev.enter, !.next = IF ev.enter THEN s.ti ELSE @]
      [] ev.e = "mTerm" -> [s EXCEPT !.mode = "term"]
      [] ev.e = "mFreeInst" -> [s EXCEPT !.mode = "gone"]
      [] ev.e = "mDestroy" -> [s EXCEPT !.mode = "unloaded"]
      [] ev.e = "mFree" -> [s EXCEPT !.mode = "freed"]
      [] OTHER -> s

(* ------------------------------------------------------------ the wrapper *)
MadeBad(s, ev) ==
    IF ~s.good THEN {"m-load"}
    ELSE (IF s.mode # "inst" \/ s.t # s.zero \/ s.tmp # 2 \/ s.ctx # 2 THEN {"m-load"} ELSE {})
         \cup (IF ev.nv # s.nx + 1 \/ ev.ne # s.nz THEN {"m-value"} ELSE {})
InitBad(s, ev) ==
    (IF Calls(s, "mNew") = <<>> \/ s.more THEN {"m-iterate"} ELSE {})
    \cup (IF Len(Calls(s, "mEnterInit")) # 1 \/ Len(Calls(s, "mExitInit")) # 1 THEN {"m-mode"} ELSE {})
    \cup (IF ev.q # Vec(s) \/ s.t # s.zero THEN {"m-value"} ELSE {})
DerBad(s, ev) ==
    LET c == Calls(s, "mDer") IN
    IF c = <<>> THEN {"m-set"}
    ELSE LET d == c[Len(c)] IN
         (IF d.s # ev.q THEN {"m-set"} ELSE {}) \cup (IF ev.v # Append(d.ev.v, s.one) THEN {"m-value"} ELSE {})
IndBad(s, ev) ==
    LET c == Calls(s, "mInd") IN
    IF s.nz = 0 THEN {}
    ELSE IF c = <<>> THEN {"m-set"}
    ELSE LET d == c[Len(c)] IN
         (IF d.s # ev.q THEN {"m-set"} ELSE {}) \cup (IF ev.v # d.ev.v THEN {"m-value"} ELSE {})
JacBad(s, ev) ==
    (IF ev.r # s.cap THEN {"m-jac"} ELSE {})
    \cup (IF ev.null \/ ~s.cap THEN IF Calls(s, "mDir") # <<>> THEN {"m-jac"} ELSE {}
          ELSE (IF \E i \in DOMAIN s.calls : s.calls[i].e = "mDir" /\ s.calls[i].s # ev.q THEN {"m-set"} ELSE {})
               \cup (IF ev.m # ev.want THEN {"m-jac"} ELSE {}))
TevBad(s, ev) ==
    IF s.next = Forever THEN IF ev.dt # Forever THEN {"m-tev"} ELSE {}
    ELSE IF ev.dt = Forever \/ Abs(ev.dt - (s.next - ev.now)) > 2 THEN {"m-tev"} ELSE {}
PostBad(s, ev) ==
    LET c == Calls(s, "mComp") IN
    IF Len(c) # (IF s.adv THEN 1 ELSE 0) THEN {"m-step"}
    ELSE (IF s.adv /\ c[1].s # ev.q THEN {"m-set"} ELSE {})
         \cup (IF s.adv /\ ev.now # ev.q[s.nx + 1] THEN {"m-step"} ELSE {})
TrialBad(s, ev) == IF Vec(s) # ev.q \/ s.mode # "cont" THEN {"m-restore"} ELSE {}
EvBad(s, ev) ==
    LET c == Calls(s, "mNew") IN
    (IF c = <<>> \/ s.more THEN {"m-iterate"} ELSE {})
    \cup (IF ev.q # Vec(s) THEN {"m-value"} ELSE {})
GetBad(s, ev) ==
    LET c == Calls(s, "mGetVar") IN
    (IF ~ev.ok \/ ev.v # ev.have THEN {"m-var"} ELSE {})
    \cup (IF \E i \in DOMAIN s.calls : s.calls[i].e = "mSetVar" THEN {"m-var"} ELSE {})
SetBad(s, ev) ==
    LET c == Calls(s, "mSetVar") IN
    IF Len(c) # 1 \/ ev.have # ev.v THEN {"m-var"}
    ELSE IF c[1].ev.k # ev.k \/ c[1].ev.vr # ev.vr \/ c[1].ev.v # ev.v THEN {"m-var"} ELSE {}

IsCall(ev) == ev.e \in {"mTmp", "mRmTmp", "mCtx", "mFreeCtx", "mParse", "mDll", "mInst", "mSetup", "mEnterInit", "mExitInit", "mNew", "mEnterCont",
                        "mEnterEvent", "mTime", "mStates", "mGet", "mDer", "mInd", "mComp", "mDir", "mGetVar", "mSetVar", "mTerm",
                        "mReset", "mFreeInst", "mDestroy", "mFree"}
Begins == [InitB |-> "init", DerB |-> "der", IndB |-> "ind", PostB |-> "post", TrialB |-> "trial", EvB |-> "event", JacB |-> "jac",
           GetB |-> "get", SetB |-> "set", DelB |-> "del"]

FmiBad(s, ev) ==
    CASE IsCall(ev) -> CallBad(s, ev)
      [] ev.e = "Made" -> MadeBad(s, ev)
      [] ev.e = "Refused" -> IF s.good \/ s.mode \notin {"new", "freed"} \/ s.tmp = 1 \/ s.ctx = 1 THEN {"m-load"} ELSE {}
      [] ev.e = "InitE" -> InitBad(s, ev)
      [] ev.e = "DerE" -> DerBad(s, ev)
      [] ev.e = "IndE" -> IndBad(s, ev)
      [] ev.e = "JacE" -> JacBad(s, ev)
      [] ev.e = "Tev" -> TevBad(s, ev)
      [] ev.e = "PostE" -> PostBad(s, ev)
      [] ev.e = "TrialE" -> TrialBad(s, ev)
      \* The FMU is where the model is when its events are handled
      [] ev.e = "EvB" -> IF Vec(s) # ev.q /\ ev.k \notin {"int2", "ext2", "conf2"} THEN {"m-stale"} ELSE {}
      [] ev.e = "EvE" -> EvBad(s, ev)
      [] ev.e = "GetE" -> GetBad(s, ev)
      [] ev.e = "SetE" -> SetBad(s, ev)
      [] ev.e = "DelE" -> IF s.mode # "freed" THEN {"m-end"} ELSE {}
      [] ev.e = "Crash" -> {"crash"}
      [] ev.e = "Hang" -> {"hang"}
      [] OTHER -> {}
FmiDo(s, ev) ==
    IF IsCall(ev) THEN CallDo(s, ev)
    ELSE IF ev.e \in DOMAIN Begins
    THEN [s EXCEPT !.in = Begins[ev.e], !.calls = <<>>, !.adv = IF ev.e = "PostB" THEN ev.adv ELSE @]
    ELSE s
=============================================================================

------------------------------ MODULE GroupImpl ------------------------------
(***************************************************************************)
(* The algorithm of wait.Group, one action per atomic step, alone or on a   *)
(* limited pool, with an arbitrary environment, watched by the contract     *)
(* Group.  Bug selects wrong variants that TLC has to refute.               *)
(***************************************************************************)
EXTENDS Group
CONSTANTS N, Size,    \* Errs: functions that may fail, 99: with a context error;
          \* \* functions; size of the pool (0: no pool)
          Rounds, HasCancel, Errs, Calls, Bug

F == 1..N
VARIABLES pc,          \* of Go(f)
          gp, ge, seen,  \* of the goroutine of f: place, error, what it has read
          count, wg, errs, slots, cancelled, cfset,
          wpc, res, rnd, rpc, rv, from,
          st, bad, quiet
impl == <<pc, gp, ge, seen, count, wg, errs, slots, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>
vars == <<impl, st, bad, quiet>>

Emit(e) == st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e) /\ quiet' = FALSE
Emit2(e, f) == LET t == Eff(st, e) IN
               st' = Eff(t, f) /\ bad' = bad \cup Viol(st, e) \cup Viol(t, f) /\ quiet' = FALSE
Silent == UNCHANGED <<st, bad>> /\ quiet' = FALSE
Nil == <<>>
CtxErr == -1
InitSt == LET s == InitState([groups |-> 1, pool |-> IF Size = 0 THEN "none" ELSE "limited", size |-> Size]) IN
          Eff(s, [k |-> "round", g |-> 1, c |-> IF HasCancel THEN 1 ELSE 0])
Init == /\ pc = [f \in F |-> "idle"] /\ gp = [f \in F |-> "none"] /\ ge = [f \in F |-> 0] /\ seen = [f \in F |-> Nil]
        /\ count = 0 /\ wg = 0 /\ errs = Nil /\ slots = 0 /\ cancelled = {} /\ cfset = HasCancel
        /\ wpc = "idle" /\ res = Nil /\ rnd = 1 /\ rpc = "idle" /\ rv = 0 /\ from = [f \in F |-> 0]
        /\ st = InitSt /\ bad = {} /\ quiet = FALSE

\* The context of round r is r.
Cx == rnd
---------------------------------------------------------------------------
Outside == wpc = "idle"
CallGo(f) ==
  /\ pc[f] = "idle" /\ \A h \in 1..(f - 1) : pc[h] # "idle"
  /\ \/ Outside
     \/ \E h \in F : gp[h] = "run" /\ "nest" \in Calls
  /\ pc' = [pc EXCEPT ![f] = "called"] /\ from' = [from EXCEPT ![f] = Cx]
  /\ Emit([k |-> "go", g |-> 1, f |-> f, c |-> Cx, nb |-> FALSE])
  /\ UNCHANGED <<gp, ge, seen, count, wg, errs, slots, cancelled, cfset, wpc, res, rnd, rpc, rv>>
End(f, e) ==
  /\ gp[f] = "run" /\ \A h \in F : pc[h] \notin {"called", "counted", "submit", "spawned"} \/ Outside
  /\ gp' = [gp EXCEPT ![f] = IF e = 0 THEN "done" ELSE "err"]
  /\ ge' = [ge EXCEPT ![f] = e]
  /\ IF Bug = "always" /\ cfset
     THEN Emit2([k |-> "end", g |-> 1, f |-> f, e |-> e], [k |-> "cf", g |-> 1])
     ELSE Emit([k |-> "end", g |-> 1, f |-> f, e |-> e])
  /\ UNCHANGED <<pc, seen, count, wg, errs, slots, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>
CallCancel ==
  /\ "cancel" \in Calls /\ Cx \notin cancelled
  /\ cancelled' = cancelled \cup {Cx}
  /\ Emit2([k |-> "cancel", c |-> Cx], [k |-> "cancelled", c |-> Cx])
  /\ UNCHANGED <<pc, gp, ge, seen, count, wg, errs, slots, cfset, wpc, res, rnd, rpc, rv, from>>
CallWait ==
  /\ wpc = "idle" /\ \A f \in F : pc[f] \in {"idle", "ret"}
  /\ wpc' = "wait"
  /\ Emit([k |-> "wait", g |-> 1])
  /\ UNCHANGED <<pc, gp, ge, seen, count, wg, errs, slots, cancelled, cfset, res, rnd, rpc, rv, from>>
CallRun ==
  /\ "run" \in Calls /\ rpc = "idle" /\ rpc' = "called"
  /\ Emit([k |-> "run", i |-> 1, g |-> 1])
  /\ UNCHANGED <<pc, gp, ge, seen, count, wg, errs, slots, cancelled, cfset, wpc, res, rnd, rv, from>>
NewRound ==
  /\ wpc = "over" /\ rnd < Rounds
  /\ rnd' = rnd + 1 /\ wpc' = "idle" /\ cfset' = HasCancel
  /\ Emit([k |-> "round", g |-> 1, c |-> IF HasCancel THEN rnd + 1 ELSE 0])
  /\ UNCHANGED <<pc, gp, ge, seen, count, wg, errs, slots, cancelled, res, rpc, rv, from>>
Env == \/ \E f \in F : CallGo(f) \/ \E e \in {0} \cup ({f} \cap Errs) \cup (IF 99 \in Errs THEN {CtxErr} ELSE {}) : End(f, e)
       \/ CallCancel \/ CallWait \/ CallRun \/ NewRound
---------------------------------------------------------------------------
Step(f, a, b) == pc[f] = a /\ pc' = [pc EXCEPT ![f] = b]
GoCount(f) == /\ Step(f, "called", "counted") /\ count' = count + 1 /\ Silent
              /\ UNCHANGED <<gp, ge, seen, wg, errs, slots, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>
GoAdd(f) == /\ Step(f, "counted", "submit") /\ wg' = wg + 1 /\ Silent
            /\ UNCHANGED <<gp, ge, seen, count, errs, slots, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>
GoSpawn(f) == /\ Step(f, "submit", "spawned") /\ (Size > 0 => slots < Size)
              /\ slots' = IF Size > 0 THEN slots + 1 ELSE 0
              /\ gp' = [gp EXCEPT ![f] = "check"] /\ Silent
              /\ UNCHANGED <<ge, seen, count, wg, errs, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>
GoRet(f) == /\ Step(f, "spawned", "ret") /\ Emit([k |-> "goret", g |-> 1, f |-> f])
            /\ UNCHANGED <<gp, ge, seen, count, wg, errs, slots, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>

G(f, a, b) == gp[f] = a /\ gp' = [gp EXCEPT ![f] = b]
Check(f) == /\ G(f, "check", IF from[f] \in cancelled /\ Bug # "nocheck" THEN "err" ELSE "start")
            /\ ge' = [ge EXCEPT ![f] = IF from[f] \in cancelled /\ Bug # "nocheck" THEN CtxErr ELSE 0]
            /\ Silent
            /\ UNCHANGED <<pc, seen, count, wg, errs, slots, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>
Start(f) == /\ G(f, "start", "run") /\ Emit([k |-> "start", g |-> 1, f |-> f, c |-> TRUE])
            /\ UNCHANGED <<pc, ge, seen, count, wg, errs, slots, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>
LoadErr(f) == /\ G(f, "err", "cas") /\ seen' = [seen EXCEPT ![f] = errs] /\ Silent
              /\ UNCHANGED <<pc, ge, count, wg, errs, slots, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>
NewErr(f) == IF seen[f] # Nil /\ ge[f] = CtxErr /\ Bug # "keepctx" THEN errs ELSE Append(seen[f], ge[f])
CasErr(f) ==
  LET ok == (seen[f] = errs) \/ Bug = "lost" \/ NewErr(f) = errs IN
  /\ G(f, "cas", IF ~ok THEN "err" ELSE IF ge[f] # CtxErr \/ f \in st.g[1].ended THEN "cancel" ELSE "done")
  /\ errs' = IF ok THEN NewErr(f) ELSE errs
  /\ Silent
  /\ UNCHANGED <<pc, ge, seen, count, wg, slots, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>
CancelFn(f) ==
  /\ G(f, "cancel", "done")
  /\ IF cfset /\ Bug # "nocancel"
     THEN /\ cancelled' = cancelled \cup {Cx}
          /\ LET t == Eff(st, [k |-> "cf", g |-> 1])
                 u == Eff(t, [k |-> "cancel", c |-> Cx]) IN
             /\ st' = Eff(u, [k |-> "cancelled", c |-> Cx])
             /\ bad' = bad \cup Viol(st, [k |-> "cf", g |-> 1])
          /\ quiet' = FALSE
     ELSE UNCHANGED cancelled /\ Silent
  /\ UNCHANGED <<pc, ge, seen, count, wg, errs, slots, cfset, wpc, res, rnd, rpc, rv, from>>
CountDown(f) ==
  /\ IF Bug = "late" THEN G(f, "counted", "release") ELSE G(f, "done", "counted")
  /\ count' = count - 1 /\ Silent
  /\ UNCHANGED <<pc, ge, seen, wg, errs, slots, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>
WgDone(f) ==
  /\ IF Bug = "late" THEN G(f, "done", "counted") ELSE G(f, "counted", "release")
  /\ wg' = wg - 1 /\ Silent
  /\ UNCHANGED <<pc, ge, seen, count, errs, slots, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>
Release(f) ==
  /\ G(f, "release", "gone") /\ slots' = (IF Size > 0 THEN slots - 1 ELSE 0) /\ Silent
  /\ UNCHANGED <<pc, ge, seen, count, wg, errs, cancelled, cfset, wpc, res, rnd, rpc, rv, from>>

W(a, b) == wpc = a /\ wpc' = b
WaitPass == /\ W("wait", "cancel") /\ wg = 0 /\ Silent
            /\ UNCHANGED <<pc, gp, ge, seen, count, wg, errs, slots, cancelled, cfset, res, rnd, rpc, rv, from>>
WaitCancel ==
  /\ W("cancel", "load")
  /\ IF cfset
     THEN /\ cancelled' = cancelled \cup {Cx} /\ cfset' = FALSE
          /\ LET t == Eff(st, [k |-> "cf", g |-> 1])
                 u == Eff(t, [k |-> "cancel", c |-> Cx]) IN
             /\ st' = Eff(u, [k |-> "cancelled", c |-> Cx])
             /\ bad' = bad \cup Viol(st, [k |-> "cf", g |-> 1])
          /\ quiet' = FALSE
     ELSE UNCHANGED <<cancelled, cfset>> /\ Silent
  /\ UNCHANGED <<pc, gp, ge, seen, count, wg, errs, slots, res, rnd, rpc, rv, from>>
WaitLoad == /\ W("load", "reset") /\ res' = errs /\ Silent
            /\ UNCHANGED <<pc, gp, ge, seen, count, wg, errs, slots, cancelled, cfset, rnd, rpc, rv, from>>
WaitReset == /\ W("reset", "ret")
             /\ count' = 0 /\ errs' = (IF Bug = "noreset" THEN errs ELSE Nil) /\ Silent
             /\ UNCHANGED <<pc, gp, ge, seen, wg, slots, cancelled, cfset, res, rnd, rpc, rv, from>>
WaitRet ==
  /\ W("ret", "over")
  /\ Emit([k |-> "waitret", g |-> 1, es |-> SelectSeq(res, LAMBDA x : x > 0), ctx |-> \E x \in DOMAIN res : res[x] < 0,
           ok |-> res = Nil, z |-> ~cfset, r |-> count])
  /\ UNCHANGED <<pc, gp, ge, seen, count, wg, errs, slots, cancelled, cfset, res, rnd, rpc, rv, from>>
RunRead == /\ rpc = "called" /\ rpc' = "read" /\ rv' = count /\ Silent
           /\ UNCHANGED <<pc, gp, ge, seen, count, wg, errs, slots, cancelled, cfset, wpc, res, rnd, from>>
RunRet == /\ rpc = "read" /\ rpc' = "idle" /\ rv' = 0
          /\ Emit([k |-> "runret", i |-> 1, v |-> rv])
          /\ UNCHANGED <<pc, gp, ge, seen, count, wg, errs, slots, cancelled, cfset, wpc, res, rnd, from>>
Internal ==
  \/ \E f \in F : \/ GoCount(f) \/ GoAdd(f) \/ GoSpawn(f) \/ GoRet(f) \/ Check(f) \/ Start(f) \/ LoadErr(f) \/ CasErr(f)
                  \/ CancelFn(f) \/ CountDown(f) \/ WgDone(f) \/ Release(f)
  \/ WaitPass \/ WaitCancel \/ WaitLoad \/ WaitReset \/ WaitRet \/ RunRead \/ RunRet
Quiesce ==
  /\ ~quiet /\ ~ENABLED Internal
  /\ LET e == [k |-> "q", rs |-> <<count>>] IN st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e)
  /\ quiet' = TRUE /\ UNCHANGED impl
Next == Internal \/ Env \/ Quiesce

Correct == bad = {}
Sane == wg >= 0 /\ slots >= 0 /\ st.g[1].started \subseteq st.g[1].fs /\ st.g[1].ended \subseteq st.g[1].started
=============================================================================

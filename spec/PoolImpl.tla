------------------------------ MODULE PoolImpl ------------------------------
(***************************************************************************)
(* The algorithms of limited.Pool and pooled.Pool, one action per atomic    *)
(* step, run by an arbitrary environment and watched by the contract Pool:  *)
(* "bad" collects the obligations that were broken.  Bug selects wrong      *)
(* variants that TLC has to refute.                                         *)
(***************************************************************************)
EXTENDS Pool
CONSTANTS Kind, Size, N, Bug, Calls

Jobs == 1..N
VARIABLES
  pc,      \* of the Submit call for each job
  nb,      \* its option
  gp,      \* of the goroutine that runs the job
  own,     \* the job has a goroutine of its own (pooled)
  slots, wg, running, idle, buf,
  wpc,     \* of a Wait or Close call
  bpc,     \* of an invalid Submit call
  rpc, rv, \* of a Running call
  st, bad, quiet

impl == <<pc, nb, gp, own, slots, wg, running, idle, buf, wpc, bpc, rpc, rv>>
vars == <<impl, st, bad, quiet>>

Emit(e) == /\ st' = Eff(st, e)
           /\ bad' = bad \cup Viol(st, e)
           /\ quiet' = FALSE
Silent == UNCHANGED <<st, bad>> /\ quiet' = FALSE

Init == /\ pc = [j \in Jobs |-> "idle"] /\ nb = [j \in Jobs |-> FALSE]
        /\ gp = [j \in Jobs |-> "none"] /\ own = [j \in Jobs |-> FALSE]
        /\ slots = 0 /\ wg = 0 /\ running = 0 /\ idle = Size /\ buf = <<>>
        /\ wpc = "idle" /\ bpc = "idle" /\ rpc = "idle" /\ rv = 0
        /\ st = InitState([kind |-> Kind, size |-> Size]) /\ bad = {} /\ quiet = FALSE

---------------------------------------------------------------------------
(* Environment. Submit, Wait and Close are called as documented: Wait only   *)
(* when no Submit is being called from outside of the running jobs.          *)
Outside(j) == TRUE
CallSubmit(j, b) ==
  /\ pc[j] = "idle" /\ \A k \in 1..(j - 1) : pc[k] # "idle"   \* symmetry
  /\ wpc = "idle" \/ (wpc = "waiting" /\ \E k \in Jobs : gp[k] = "run")   \* from inside a job
  /\ pc' = [pc EXCEPT ![j] = "called"] /\ nb' = [nb EXCEPT ![j] = b]
  /\ Emit([k |-> "sub", j |-> j, nb |-> b])
  /\ UNCHANGED <<gp, own, slots, wg, running, idle, buf, wpc, bpc, rpc, rv>>
End(j) ==
  /\ gp[j] = "run"
  /\ gp' = [gp EXCEPT ![j] = "ended"]
  /\ Emit([k |-> "end", j |-> j])
  /\ UNCHANGED <<pc, nb, own, slots, wg, running, idle, buf, wpc, bpc, rpc, rv>>
CallWait(c) ==
  /\ wpc = "idle" /\ \A j \in Jobs : pc[j] \in {"idle", "ret"}
  /\ wpc' = "waiting"
  /\ Emit([k |-> "wait", w |-> 1, cl |-> c])
  /\ UNCHANGED <<pc, nb, gp, own, slots, wg, running, idle, buf, bpc, rpc, rv>>
CallBad ==
  /\ bpc = "idle" /\ bpc' = "called"
  /\ Emit([k |-> "bad", b |-> 1])
  /\ UNCHANGED <<pc, nb, gp, own, slots, wg, running, idle, buf, wpc, rpc, rv>>
CallRunning ==
  /\ rpc = "idle" /\ rpc' = "called"
  /\ Emit([k |-> "run", i |-> 1])
  /\ UNCHANGED <<pc, nb, gp, own, slots, wg, running, idle, buf, wpc, bpc, rv>>
Env == \/ \E j \in Jobs : End(j) \/ \E b \in BOOLEAN : CallSubmit(j, b)
       \/ "wait" \in Calls /\ CallWait(FALSE)
       \/ "bad" \in Calls /\ CallBad
       \/ "run" \in Calls /\ CallRunning

---------------------------------------------------------------------------
(* Submit *)
Goto(j, a, b) == pc[j] = a /\ pc' = [pc EXCEPT ![j] = b]
LAcquire(j) ==
  /\ Kind = "limited"
  /\ Goto(j, "called", "acquired")
  /\ IF nb[j] THEN UNCHANGED slots ELSE slots < Size /\ slots' = slots + 1
  /\ Silent /\ UNCHANGED <<nb, gp, own, wg, running, idle, buf, wpc, bpc, rpc, rv>>
LWg(j) ==
  /\ Kind = "limited" /\ Goto(j, "acquired", "wg")
  /\ IF Bug = "nowg" THEN UNCHANGED wg ELSE wg' = wg + 1
  /\ Silent /\ UNCHANGED <<nb, gp, own, slots, running, idle, buf, wpc, bpc, rpc, rv>>
LRunning(j) ==
  /\ Kind = "limited" /\ Goto(j, "wg", "counted")
  /\ running' = running + 1
  /\ Silent /\ UNCHANGED <<nb, gp, own, slots, wg, idle, buf, wpc, bpc, rpc, rv>>
LSpawn(j) ==
  /\ Kind = "limited" /\ Goto(j, "counted", IF Bug = "early" /\ ~nb[j] THEN "release" ELSE "return")
  /\ gp' = [gp EXCEPT ![j] = "go"]
  /\ Silent /\ UNCHANGED <<nb, own, slots, wg, running, idle, buf, wpc, bpc, rpc, rv>>
LEarly(j) ==
  /\ Kind = "limited" /\ Goto(j, "release", "return")
  /\ slots' = slots - 1
  /\ Silent /\ UNCHANGED <<nb, gp, own, wg, running, idle, buf, wpc, bpc, rpc, rv>>
PWg(j) ==
  /\ Kind = "pooled" /\ Goto(j, "called", "wg")
  /\ wg' = wg + 1
  /\ Silent /\ UNCHANGED <<nb, gp, own, slots, running, idle, buf, wpc, bpc, rpc, rv>>
PRunning(j) ==
  /\ Kind = "pooled" /\ Goto(j, "wg", "counted")
  /\ running' = running + 1
  /\ Silent /\ UNCHANGED <<nb, gp, own, slots, wg, idle, buf, wpc, bpc, rpc, rv>>
PHandOff(j) ==    \* a worker is waiting at the queue
  /\ Kind = "pooled" /\ Goto(j, "counted", "return")
  /\ idle > 0 /\ buf = <<>>
  /\ idle' = idle - 1 /\ gp' = [gp EXCEPT ![j] = "go"]
  /\ Silent /\ UNCHANGED <<nb, own, slots, wg, running, buf, wpc, bpc, rpc, rv>>
PBuffer(j) ==     \* wrong: the queue has a buffer
  /\ Kind = "pooled" /\ Bug = "buffer" /\ Goto(j, "counted", "return")
  /\ Len(buf) < 1
  /\ buf' = Append(buf, j)
  /\ Silent /\ UNCHANGED <<nb, gp, own, slots, wg, running, idle, wpc, bpc, rpc, rv>>
PTake ==
  /\ Kind = "pooled" /\ idle > 0 /\ buf # <<>>
  /\ gp' = [gp EXCEPT ![Head(buf)] = "go"] /\ buf' = Tail(buf) /\ idle' = idle - 1
  /\ Silent /\ UNCHANGED <<pc, nb, own, slots, wg, running, wpc, bpc, rpc, rv>>
PSpawn(j) ==      \* nobody is waiting: non-blocking jobs get a goroutine of their own
  /\ Kind = "pooled" /\ nb[j] /\ Goto(j, "counted", "return")
  /\ idle = 0 /\ (Bug = "buffer" => Len(buf) = 1)
  /\ gp' = [gp EXCEPT ![j] = "go"] /\ own' = [own EXCEPT ![j] = TRUE]
  /\ Silent /\ UNCHANGED <<nb, slots, wg, running, idle, buf, wpc, bpc, rpc, rv>>
Return(j) ==
  /\ Goto(j, "return", "ret")
  /\ Emit([k |-> "subret", j |-> j, ok |-> TRUE])
  /\ UNCHANGED <<nb, gp, own, slots, wg, running, idle, buf, wpc, bpc, rpc, rv>>

(* The goroutine that runs a job *)
GGoto(j, a, b) == gp[j] = a /\ gp' = [gp EXCEPT ![j] = b]
Start(j) ==
  /\ GGoto(j, "go", "run")
  /\ Emit([k |-> "start", j |-> j, c |-> TRUE])
  /\ UNCHANGED <<pc, nb, own, slots, wg, running, idle, buf, wpc, bpc, rpc, rv>>
CountDown(j) ==
  /\ GGoto(j, IF Bug = "doneFirst" THEN "released" ELSE "ended", IF Bug = "doneFirst" THEN "done" ELSE "counted")
  /\ running' = running - 1
  /\ Silent /\ UNCHANGED <<pc, nb, own, slots, wg, idle, buf, wpc, bpc, rpc, rv>>
Release(j) ==
  /\ GGoto(j, "counted", "undone")
  /\ slots' = IF Kind = "limited" /\ ~nb[j] /\ Bug # "early" THEN slots - 1 ELSE slots
  /\ Silent /\ UNCHANGED <<pc, nb, own, wg, running, idle, buf, wpc, bpc, rpc, rv>>
Done(j) ==
  /\ GGoto(j, IF Bug = "doneFirst" THEN "ended" ELSE "undone", IF Bug = "doneFirst" THEN "released" ELSE "done")
  /\ wg' = IF Bug = "nowg" THEN wg ELSE wg - 1
  /\ Silent /\ UNCHANGED <<pc, nb, own, slots, running, idle, buf, wpc, bpc, rpc, rv>>
Loop(j) ==
  /\ GGoto(j, "done", "gone")
  /\ idle' = IF Kind = "pooled" /\ ~own[j] THEN idle + 1 ELSE idle
  /\ Silent /\ UNCHANGED <<pc, nb, own, slots, wg, running, buf, wpc, bpc, rpc, rv>>

WaitPass ==
  /\ wpc = "waiting" /\ wg = 0 /\ wpc' = "passed"
  /\ Silent /\ UNCHANGED <<pc, nb, gp, own, slots, wg, running, idle, buf, bpc, rpc, rv>>
WaitReturn ==
  /\ wpc = "passed" /\ wpc' = "idle"
  /\ Emit([k |-> "waitret", w |-> 1, cl |-> FALSE, r |-> running])
  /\ UNCHANGED <<pc, nb, gp, own, slots, wg, running, idle, buf, bpc, rpc, rv>>
BadReturn ==
  /\ bpc = "called" /\ bpc' = "ret"
  /\ slots' = IF Bug = "badslot" THEN slots + 1 ELSE slots
  /\ Emit([k |-> "badret", b |-> 1, ok |-> FALSE])
  /\ UNCHANGED <<pc, nb, gp, own, wg, running, idle, buf, wpc, rpc, rv>>
RunningRead ==
  /\ rpc = "called" /\ rpc' = "read" /\ rv' = running
  /\ Silent /\ UNCHANGED <<pc, nb, gp, own, slots, wg, running, idle, buf, wpc, bpc>>
RunningReturn ==
  /\ rpc = "read" /\ rpc' = "idle" /\ rv' = 0
  /\ Emit([k |-> "runret", i |-> 1, v |-> rv])
  /\ UNCHANGED <<pc, nb, gp, own, slots, wg, running, idle, buf, wpc, bpc>>

Internal ==
  \/ \E j \in Jobs : \/ LAcquire(j) \/ LWg(j) \/ LRunning(j) \/ LSpawn(j) \/ LEarly(j)
                     \/ PWg(j) \/ PRunning(j) \/ PHandOff(j) \/ PBuffer(j) \/ PSpawn(j)
                     \/ Return(j) \/ Start(j) \/ CountDown(j) \/ Release(j) \/ Done(j) \/ Loop(j)
  \/ PTake \/ WaitPass \/ WaitReturn \/ BadReturn \/ RunningRead \/ RunningReturn

\* Nothing can happen any more unless the environment acts.
Quiesce ==
  /\ ~quiet /\ ~ENABLED Internal
  /\ LET e == [k |-> "q", r |-> running, l |-> Size] IN
       st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e)
  /\ quiet' = TRUE /\ UNCHANGED impl

Next == Internal \/ Env \/ Quiesce
Spec == Init /\ [][Next]_vars

Correct == bad = {}
\* Facts about the contract itself, on the behaviours that satisfy it.
Sane == /\ Cardinality(RunningB(st)) <= Size
        /\ st.ended \subseteq st.started /\ st.started \subseteq st.called
        /\ wg >= 0 /\ running >= 0 /\ idle >= 0
=============================================================================

------------------------------- MODULE ParImpl -------------------------------
(***************************************************************************)
(* The algorithms of slices.Access, chans.Access and chans.Modify on top of *)
(* a limited pool, one action per atomic step, run by an arbitrary          *)
(* environment and watched by the contract Par.  Bug selects wrong variants *)
(* that TLC has to refute.                                                  *)
(***************************************************************************)
EXTENDS Par
CONSTANTS Op, N, Size, Stop, Errs, MayCancel, Bug

E == 1..N
VARIABLES m, cur, ctxErr,        \* the operation itself
          gp, ge,                \* the goroutines of the calls
          errs, inflight, cancelled, inner,
          nsent, pend, closed,   \* the input
          rp, outc,              \* the output
          st, bad, quiet
impl == <<m, cur, ctxErr, gp, ge, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>
vars == <<impl, st, bad, quiet>>

Emit(e) == st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e) /\ quiet' = FALSE
Emit2(e, f) == LET t == Eff(st, e) IN
               st' = Eff(t, f) /\ bad' = bad \cup Viol(st, e) \cup Viol(t, f) /\ quiet' = FALSE
Silent == UNCHANGED <<st, bad>> /\ quiet' = FALSE
Init == /\ m = "idle" /\ cur = 0 /\ ctxErr = FALSE
        /\ gp = [i \in E |-> "none"] /\ ge = [i \in E |-> 0]
        /\ errs = <<>> /\ inflight = 0 /\ cancelled = FALSE /\ inner = FALSE
        /\ nsent = 0 /\ pend = {} /\ closed = FALSE /\ rp = 0 /\ outc = FALSE
        /\ st = InitState([op |-> Op, n |-> IF Op = "slice" THEN N ELSE 0, pool |-> "limited", size |-> Size, nb |-> FALSE,
                           stop |-> Stop, cpus |-> 99, ocap |-> 0, spy |-> FALSE])
        /\ bad = {} /\ quiet = FALSE
Done == cancelled \/ inner
---------------------------------------------------------------------------
CallOp == /\ m = "idle" /\ m' = "loop" /\ cur' = 0 /\ Emit([k |-> "call"])
          /\ UNCHANGED <<ctxErr, gp, ge, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>
Send == /\ Op # "slice" /\ ~closed /\ nsent < N
        /\ nsent' = nsent + 1 /\ pend' = pend \cup {nsent + 1} /\ Emit([k |-> "send", v |-> nsent + 1])
        /\ UNCHANGED <<m, cur, ctxErr, gp, ge, errs, inflight, cancelled, inner, closed, rp, outc>>
Close == /\ Op # "slice" /\ ~closed /\ pend = {} /\ closed' = TRUE /\ Emit([k |-> "close"])
         /\ UNCHANGED <<m, cur, ctxErr, gp, ge, errs, inflight, cancelled, inner, nsent, pend, rp, outc>>
Cancel == /\ MayCancel /\ ~cancelled /\ cancelled' = TRUE /\ Emit2([k |-> "cancel"], [k |-> "cancelled"])
          /\ UNCHANGED <<m, cur, ctxErr, gp, ge, errs, inflight, inner, nsent, pend, closed, rp, outc>>
Recv == /\ Op = "modify" /\ rp = 0 /\ ~st.outclosed /\ rp' = 1 /\ Silent
        /\ UNCHANGED <<m, cur, ctxErr, gp, ge, errs, inflight, cancelled, inner, nsent, pend, closed, outc>>
End(i, e) ==
  /\ gp[i] = "run" /\ ge' = [ge EXCEPT ![i] = e]
  /\ gp' = [gp EXCEPT ![i] = IF Op = "modify" THEN "send" ELSE "err"]
  /\ Emit([k |-> "end", i |-> i, e |-> e])
  /\ UNCHANGED <<m, cur, ctxErr, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>
Env == CallOp \/ Send \/ Close \/ Cancel \/ Recv
       \/ \E i \in E : \E e \in {0} \cup ({i} \cap Errs) \cup (IF 99 \in Errs THEN {-1} ELSE {}) : End(i, e)
---------------------------------------------------------------------------
M(a, b) == m = a /\ m' = b
Loop ==     \* of slices.Access
  /\ Op = "slice" /\ m = "loop"
  /\ cur' = cur + 1
  /\ IF cur = N THEN m' = "wait" /\ UNCHANGED ctxErr
     ELSE IF Done /\ Bug # "nocheck" THEN m' = (IF Bug = "nowait" THEN "ret" ELSE "wait") /\ ctxErr' = TRUE
     ELSE m' = "submit" /\ UNCHANGED ctxErr
  /\ Silent /\ UNCHANGED <<gp, ge, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>
Take(v) ==
  /\ Op # "slice" /\ M("loop", "check") /\ v \in pend
  /\ pend' = pend \ {v} /\ cur' = v /\ Emit([k |-> "sent", v |-> v])
  /\ UNCHANGED <<ctxErr, gp, ge, errs, inflight, cancelled, inner, nsent, closed, rp, outc>>
TakeClosed ==
  /\ Op # "slice" /\ M("loop", "wait") /\ closed /\ pend = {}
  /\ Silent /\ UNCHANGED <<cur, ctxErr, gp, ge, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>
TakeDone ==
  /\ Op # "slice" /\ Bug # "noctx" /\ M("loop", "check") /\ Done
  /\ cur' = 0 /\ Silent /\ UNCHANGED <<ctxErr, gp, ge, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>
Check ==
  /\ m = "check"
  /\ IF Done /\ ~(Bug = "nocheck" /\ cur # 0) THEN m' = (IF Bug = "nowait" THEN "close" ELSE "wait") /\ ctxErr' = TRUE
                                              ELSE m' = "submit" /\ UNCHANGED ctxErr
  /\ Silent /\ UNCHANGED <<cur, gp, ge, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>
Submit ==
  /\ M("submit", "loop") /\ (inflight < Size \/ Bug = "nolimit")
  /\ inflight' = inflight + 1 /\ gp' = [gp EXCEPT ![cur] = "go"]
  /\ Silent /\ UNCHANGED <<cur, ctxErr, ge, errs, cancelled, inner, nsent, pend, closed, rp, outc>>
Wait ==
  /\ M("wait", "close") /\ \A i \in E : gp[i] \in {"none", "gone"}
  /\ Silent /\ UNCHANGED <<cur, ctxErr, gp, ge, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>
CloseOut ==
  /\ M("close", "ret") /\ outc' = (Op = "modify")
  /\ Silent /\ UNCHANGED <<cur, ctxErr, gp, ge, errs, inflight, cancelled, inner, nsent, pend, closed, rp>>
Ret ==
  /\ M("ret", "done")
  /\ LET q == IF Bug = "droperr" /\ ctxErr THEN <<>> ELSE errs IN
     Emit([k |-> "ret", es |-> SelectSeq(q, LAMBDA x : x > 0), ok |-> q = <<>> /\ ~ctxErr, vals |-> st.val])
  /\ UNCHANGED <<cur, ctxErr, gp, ge, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>

G(i, a, b) == gp[i] = a /\ gp' = [gp EXCEPT ![i] = b]
Begin(i) ==
  /\ IF Done /\ Bug # "nocheck" THEN G(i, "go", "err") /\ ge' = [ge EXCEPT ![i] = -2] ELSE G(i, "go", "start") /\ UNCHANGED ge
  /\ Silent /\ UNCHANGED <<m, cur, ctxErr, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>
Start(i) ==
  /\ G(i, "start", "run") /\ Emit([k |-> "start", i |-> i, v |-> 10 * i, c |-> TRUE])
  /\ UNCHANGED <<m, cur, ctxErr, ge, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>
Deliver(i) ==
  /\ G(i, "send", "err") /\ rp > 0 /\ ~st.outclosed /\ rp' = 0
  /\ Emit([k |-> "recv", v |-> IF ge[i] = -1 THEN 0 ELSE i, e |-> ge[i]])
  /\ UNCHANGED <<m, cur, ctxErr, ge, errs, inflight, cancelled, inner, nsent, pend, closed, outc>>
Drop(i) ==
  /\ G(i, "send", "err") /\ Done /\ Bug # "sendblock"
  /\ ge' = [ge EXCEPT ![i] = IF @ = 0 THEN -2 ELSE @]
  /\ Silent /\ UNCHANGED <<m, cur, ctxErr, errs, inflight, cancelled, inner, nsent, pend, closed, rp, outc>>
Err(i) ==
  /\ G(i, "err", "fin")
  /\ errs' = IF ge[i] = 0 \/ (ge[i] < 0 /\ errs # <<>>) THEN errs ELSE Append(errs, ge[i])
  /\ inner' = (inner \/ (Stop /\ ge[i] # 0 /\ Bug # "nostop"))
  /\ Silent /\ UNCHANGED <<m, cur, ctxErr, ge, inflight, cancelled, nsent, pend, closed, rp, outc>>
Fin(i) ==
  /\ G(i, "fin", "gone") /\ inflight' = inflight - 1
  /\ Silent /\ UNCHANGED <<m, cur, ctxErr, ge, errs, cancelled, inner, nsent, pend, closed, rp, outc>>
SeeClosed ==
  /\ rp > 0 /\ outc /\ rp' = 0 /\ Emit([k |-> "outclosed"])
  /\ UNCHANGED <<m, cur, ctxErr, gp, ge, errs, inflight, cancelled, inner, nsent, pend, closed, outc>>
Internal == \/ Loop \/ (\E v \in pend : Take(v)) \/ TakeClosed \/ TakeDone \/ Check \/ Submit \/ Wait \/ CloseOut \/ Ret \/ SeeClosed
            \/ \E i \in E : Begin(i) \/ Start(i) \/ Deliver(i) \/ Drop(i) \/ Err(i) \/ Fin(i)
Quiesce ==
  /\ ~quiet /\ ~ENABLED Internal
  /\ LET x == { i \in E : gp[i] = "run" }
         s == [ i \in 1..N |-> i ]
         e == [k |-> "q", live |-> IF Done THEN <<>> ELSE SelectSeq(s, LAMBDA i : i \in x),
               dead |-> IF Done THEN SelectSeq(s, LAMBDA i : i \in x) ELSE <<>>, r |-> inflight, rp |-> rp] IN
     st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e)
  /\ quiet' = TRUE /\ UNCHANGED impl
Next == Internal \/ Env \/ Quiesce

Correct == bad = {}
Sane == inflight >= 0 /\ inflight <= Size /\ st.ended \subseteq st.started
=============================================================================

------------------------------- MODULE PipeImpl -------------------------------
(* The algorithm of stagedpipe: submitters, runners, the demuxer, one goroutine *)
(* per group, Close of groups and pipelines, under the contract Pipe. Bug       *)
(* selects wrong variants that TLC has to refute.                               *)
EXTENDS Pipe
CONSTANTS N, G, R,        \* requests, groups, runners
          Ordered, IsDag,
          Progs,          \* the stages a request may run through, as digits
          Fails,          \* requests whose last stage fails
          Cancels,        \* requests with the context that may be cancelled
          Pre,            \* groups that exist already
          Bug
Rq == 1..N
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n - 10 * (n \div 10))
Gp == 1..G
Rn == 1..R
Grp(r) == 1 + (r - 1) - G * ((r - 1) \div G)
Ctx(r) == IF r \in Cancels THEN 1 ELSE 0
VARIABLES prog, pos, sp, num, lock, item, wg, pwg,        \* requests, submission
          in, inc, rn, has, stp, seen, seenall, leak,     \* runners
          out, outc, dm, map,                             \* demuxer
          gout, goutc, gr, tree, cnt, user, userc,        \* goroutine of a group
          cs, gs, cl, pc, sm, cx, running, completed,     \* consumers, groups, Close
          st, bad, quiet
subm == <<prog, pos, sp, num, lock, item>>
runv == <<in, inc, rn, has, stp, seen, seenall, leak>>
dmv  == <<out, outc, dm, map>>
grv  == <<gout, goutc, gr, tree, cnt, user, userc>>
env  == <<cs, gs, cl, pc, sm, cx>>
cntv == <<running, completed>>
impl == <<subm, wg, pwg, runv, dmv, grv, env, cntv>>
vars == <<impl, st, bad, quiet>>
Emit(e) == st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e) /\ quiet' = FALSE
Silent == UNCHANGED <<st, bad>> /\ quiet' = FALSE
Cap == R
Init ==
  /\ prog \in [Rq -> { Digits(n) : n \in Progs }] /\ pos = [r \in Rq |-> 1] /\ sp = [r \in Rq |-> "idle"] /\ num = [r \in Rq |-> 0]
  /\ lock = [g \in Gp |-> 0] /\ item = [g \in Gp |-> 0] /\ wg = [g \in Gp |-> 0] /\ pwg = 0
  /\ in = <<>> /\ inc = FALSE /\ rn = [k \in Rn |-> IF Bug = "onerunner" /\ k > 1 THEN "none" ELSE "idle"] /\ has = [k \in Rn |-> 0]
  /\ stp = [k \in Rn |-> 0] /\ seen = [k \in Rn |-> {}] /\ seenall = {} /\ leak = {}
  /\ out = <<>> /\ outc = FALSE /\ dm = <<0, 0>> /\ map = 1..Pre
  /\ gout = [g \in Gp |-> <<>>] /\ goutc = [g \in Gp |-> FALSE] /\ gr = [g \in Gp |-> <<"wait", 0>>] /\ tree = [g \in Gp |-> {}]
  /\ cnt = [g \in Gp |-> 0] /\ user = [g \in Gp |-> <<>>] /\ userc = [g \in Gp |-> FALSE]
  /\ cs = [g \in Gp |-> "idle"] /\ gs = [g \in Gp |-> IF g <= Pre THEN "made" ELSE "none"] /\ cl = [g \in Gp |-> "open"] /\ pc = "open" /\ sm = "open" /\ cx = 0
  /\ running = 0 /\ completed = 0
  /\ st = [ InitState([pipes |-> <<[cap |-> Cap, dag |-> IsDag, ordered |-> Ordered, npp |-> 0, delay |-> 0]>>])
             EXCEPT !.grp = [ g \in 1..Pre |-> [p |-> 1, made |-> TRUE, wt |-> 0, cl |-> 0, eof |-> FALSE] ] ]
  /\ bad = {} /\ quiet = FALSE

Final(r) == [e |-> IF r \in Fails THEN 5 ELSE 0]
Pending(g) == \E r \in Rq : Grp(r) = g /\ sp[r] \notin {"idle", "ok", "no"}
\* Environment ------------------------------------------------------------
NewGroup(g) == /\ gs[g] = "none" /\ pc = "open" /\ \A h \in 1..(g - 1) : gs[h] # "none"
               /\ gs' = [gs EXCEPT ![g] = "making"] /\ Emit([k |-> "ng", g |-> g, p |-> 1])
               /\ UNCHANGED <<subm, wg, pwg, runv, dmv, grv, cs, cl, pc, sm, cx, cntv>>
CallSubmit(r) == /\ sp[r] = "idle" /\ gs[Grp(r)] = "made" /\ cl[Grp(r)] = "open" /\ pc = "open"
                 /\ \A x \in 1..(r - 1) : sp[x] # "idle"
                 /\ sp' = [sp EXCEPT ![r] = "called"] /\ Emit([k |-> "sub", r |-> r, g |-> Grp(r), c |-> Ctx(r), t |-> 0, now |-> 0])
                 /\ UNCHANGED <<prog, pos, num, lock, item, wg, pwg, runv, dmv, grv, env, cntv>>
Receive(g) == /\ cs[g] = "idle" /\ gs[g] = "made" /\ cs' = [cs EXCEPT ![g] = "wait"] /\ Emit([k |-> "rv", g |-> g])
              /\ UNCHANGED <<subm, wg, pwg, runv, dmv, grv, gs, cl, pc, sm, cx, cntv>>
CallClose(g) == /\ cl[g] = "open" /\ gs[g] = "made" /\ ~Pending(g) /\ cl' = [cl EXCEPT ![g] = "called"] /\ Emit([k |-> "cl", g |-> g])
                /\ UNCHANGED <<subm, wg, pwg, runv, dmv, grv, cs, gs, pc, sm, cx, cntv>>
CallPClose == /\ pc = "open" /\ \A g \in Gp : gs[g] # "making" /\ ~Pending(g)
              /\ pc' = "called" /\ Emit([k |-> "pcl", p |-> 1]) /\ UNCHANGED <<subm, wg, pwg, runv, dmv, grv, cs, gs, cl, sm, cx, cntv>>
Cancel == /\ cx \in {0, 1} /\ Cancels # {} /\ cx' = cx + 1
          /\ (IF cx = 0 THEN Emit([k |-> "cancel", c |-> 1, e |-> -1]) ELSE Emit([k |-> "cancelled", c |-> 1]))
          /\ UNCHANGED <<subm, wg, pwg, runv, dmv, grv, cs, gs, cl, pc, sm, cntv>>
EndStage(k) ==
  /\ rn[k] = "stage"
  /\ LET r == has[k]
         last == pos[r] >= Len(prog[r])
         nx == IF last THEN 0 ELSE prog[r][pos[r] + 1]
         er == IF last THEN Final(r).e ELSE 0 IN
       /\ Emit([k |-> "en", r |-> r, m |-> stp[k], t |-> pos[r], e |-> er, nx |-> nx, now |-> 0])
       /\ pos' = [pos EXCEPT ![r] = @ + 1]
       /\ IF last THEN rn' = [rn EXCEPT ![k] = IF Bug = "stale" /\ r \notin leak THEN "check" ELSE "exit"]
                       /\ stp' = [stp EXCEPT ![k] = IF Bug = "stale" THEN 2 ELSE @] /\ leak' = leak \cup {r}
          ELSE rn' = [rn EXCEPT ![k] = "check"] /\ stp' = [stp EXCEPT ![k] = nx] /\ UNCHANGED leak
  /\ UNCHANGED <<prog, sp, num, lock, item, wg, pwg, in, inc, has, seen, seenall, dmv, grv, env, cntv>>
\* cx = 1 is the middle of a cancellation, which goes on by itself.
Env == \/ \E g \in Gp : NewGroup(g) \/ Receive(g) \/ CallClose(g)
       \/ \E r \in Rq : CallSubmit(r)
       \/ \E k \in Rn : EndStage(k)
       \/ CallPClose \/ (cx = 0 /\ Cancel)
\* NewRequestGroup
Add(g) == /\ gs[g] = "making" /\ gs' = [gs EXCEPT ![g] = "added"]
          /\ map' = (IF Bug = "lostmap" /\ g > 1 THEN {g} ELSE map \cup {g})
          /\ Silent /\ UNCHANGED <<subm, wg, pwg, runv, out, outc, dm, grv, cs, cl, pc, sm, cx, cntv>>
Made(g) == /\ gs[g] = "added" /\ gs' = [gs EXCEPT ![g] = "made"] /\ Emit([k |-> "ngret", g |-> g])
           /\ UNCHANGED <<subm, wg, pwg, runv, dmv, grv, cs, cl, pc, sm, cx, cntv>>
\* Submit
Lock(r) == /\ sp[r] = "called" /\ (Ordered => lock[Grp(r)] = 0) /\ sp' = [sp EXCEPT ![r] = "locked"]
           /\ lock' = (IF Ordered THEN [lock EXCEPT ![Grp(r)] = r] ELSE lock)
           /\ Silent /\ UNCHANGED <<prog, pos, num, item, wg, pwg, runv, dmv, grv, env, cntv>>
Count(r) == /\ sp[r] = "locked" /\ sp' = [sp EXCEPT ![r] = "select"] /\ num' = [num EXCEPT ![r] = item[Grp(r)]]
            /\ item' = [item EXCEPT ![Grp(r)] = @ + 1] /\ wg' = [wg EXCEPT ![Grp(r)] = @ + 1] /\ pwg' = pwg + 1
            /\ Silent /\ UNCHANGED <<prog, pos, lock, runv, dmv, grv, env, cntv>>
Enter(r) == /\ sp[r] = "select" /\ Len(in) < 1 /\ in' = Append(in, r) /\ sp' = [sp EXCEPT ![r] = "in"]
            /\ Silent /\ UNCHANGED <<prog, pos, num, lock, item, wg, pwg, inc, rn, has, stp, seen, seenall, leak, dmv, grv, env, cntv>>
Refuse(r) == /\ sp[r] \in {"select", "called"} /\ cx > 0 /\ r \in Cancels /\ Bug # "blocked"
             /\ (sp[r] = "called" => Ordered)
             /\ sp' = [sp EXCEPT ![r] = "refused"]
             /\ IF sp[r] = "called" THEN UNCHANGED <<wg, pwg, item, lock>>
                ELSE /\ wg' = [wg EXCEPT ![Grp(r)] = @ - 1] /\ pwg' = (IF Bug = "pwg" THEN pwg ELSE pwg - 1)
                     /\ item' = (IF Ordered /\ Bug # "gap" THEN [item EXCEPT ![Grp(r)] = num[r]] ELSE item)
                     /\ lock' = (IF Ordered THEN [lock EXCEPT ![Grp(r)] = 0] ELSE lock)
             /\ Silent /\ UNCHANGED <<prog, pos, num, runv, dmv, grv, env, cntv>>
SubRet(r) == /\ sp[r] \in {"in", "refused"} /\ sp' = [sp EXCEPT ![r] = IF sp[r] = "in" THEN "ok" ELSE "no"]
             /\ lock' = (IF Ordered /\ lock[Grp(r)] = r THEN [lock EXCEPT ![Grp(r)] = 0] ELSE lock)
             /\ Emit([k |-> "subret", r |-> r, e |-> IF sp[r] = "in" THEN 0 ELSE -1])
             /\ UNCHANGED <<prog, pos, num, item, wg, pwg, runv, dmv, grv, env, cntv>>
\* Runners
Take(k) == /\ rn[k] = "idle" /\ in # <<>> /\ has' = [has EXCEPT ![k] = in[1]] /\ in' = <<>> /\ rn' = [rn EXCEPT ![k] = "check"]
           /\ stp' = [stp EXCEPT ![k] = 1] /\ seen' = [seen EXCEPT ![k] = {}] /\ running' = running + 1
           /\ completed' = (IF Bug = "comp" THEN completed + 1 ELSE completed)
           /\ Silent /\ UNCHANGED <<subm, wg, pwg, inc, seenall, leak, dmv, grv, env>>
End(k) == /\ rn[k] = "idle" /\ in = <<>> /\ inc /\ rn' = [rn EXCEPT ![k] = "end"] /\ Silent
          /\ UNCHANGED <<subm, wg, pwg, in, inc, has, stp, seen, seenall, leak, dmv, grv, env, cntv>>
Check(k) == /\ rn[k] = "check"
            /\ LET r == has[k]
                   sn == IF Bug = "seenshared" THEN seenall ELSE seen[k] IN
                 IF cx > 0 /\ r \in Cancels /\ Bug # "noctx"
                 THEN rn' = [rn EXCEPT ![k] = "ctxerr"] /\ UNCHANGED <<seen, seenall>>
                 ELSE IF IsDag /\ stp[k] \in sn
                 THEN rn' = [rn EXCEPT ![k] = "cyclic"] /\ UNCHANGED <<seen, seenall>>
                 ELSE /\ rn' = [rn EXCEPT ![k] = "begin"]
                      /\ seen' = [seen EXCEPT ![k] = IF Bug = "seenstart" /\ stp[k] = 1 THEN @ ELSE @ \cup {stp[k]}]
                      /\ seenall' = (IF Bug = "seenshared" THEN seenall \cup {stp[k]} ELSE seenall)
            /\ Silent /\ UNCHANGED <<subm, wg, pwg, in, inc, has, stp, leak, dmv, grv, env, cntv>>
BeginStage(k) == /\ rn[k] = "begin" /\ rn' = [rn EXCEPT ![k] = "stage"]
                 /\ Emit([k |-> "st", r |-> has[k], m |-> stp[k], t |-> pos[has[k]] - 1, now |-> 0])
                 /\ UNCHANGED <<subm, wg, pwg, in, inc, has, stp, seen, seenall, leak, dmv, grv, env, cntv>>
Exit(k) == /\ rn[k] \in {"exit", "ctxerr", "cyclic"} /\ running' = running - 1
           /\ completed' = (IF Bug = "comp" THEN completed ELSE completed + 1)
           /\ rn' = [rn EXCEPT ![k] = IF rn[k] = "exit" THEN "put" ELSE IF rn[k] = "cyclic" THEN "putcy" ELSE "putctx"]
           /\ Silent /\ UNCHANGED <<subm, wg, pwg, in, inc, has, stp, seen, seenall, leak, dmv, grv, env>>
PutOut(k) == /\ rn[k] \in {"put", "putcy", "putctx"} /\ Len(out) < 1
             /\ out' = Append(out, <<has[k], IF rn[k] = "put" THEN Final(has[k]).e ELSE IF rn[k] = "putcy" THEN -4 ELSE -1>>)
             /\ rn' = [rn EXCEPT ![k] = "idle"]
             /\ Silent /\ UNCHANGED <<subm, wg, pwg, in, inc, has, stp, seen, seenall, leak, outc, dm, map, grv, env, cntv>>
\* Demuxer: dm is the request being forwarded (0: none)
Demux == /\ dm[1] = 0 /\ out # <<>> /\ out' = <<>>
         /\ dm' = (IF (Grp(out[1][1]) \in map) THEN <<out[1][1], out[1][2]>> ELSE <<0, 0>>)    \* otherwise it is lost
         /\ Silent /\ UNCHANGED <<subm, wg, pwg, runv, outc, map, grv, env, cntv>>
To(r) == IF Bug = "wrongg" THEN 1 ELSE Grp(r)
Forward == /\ dm[1] # 0 /\ Len(gout[To(dm[1])]) < 1 /\ ~goutc[To(dm[1])]
           /\ gout' = [gout EXCEPT ![To(dm[1])] = Append(@, dm)] /\ dm' = <<0, 0>>
           /\ Silent /\ UNCHANGED <<subm, wg, pwg, runv, out, outc, map, goutc, gr, tree, cnt, user, userc, env, cntv>>
\* Goroutine of a group
GTake(g) == /\ gr[g][1] = "wait" /\ gout[g] # <<>> /\ gout' = [gout EXCEPT ![g] = <<>>]
            /\ wg' = [wg EXCEPT ![g] = @ - 1] /\ pwg' = pwg - 1
            /\ (IF Ordered THEN tree' = [tree EXCEPT ![g] = @ \cup {gout[g][1]}] /\ gr' = [gr EXCEPT ![g] = <<"flush", 0>>]
                ELSE gr' = [gr EXCEPT ![g] = <<"send", gout[g][1]>>] /\ UNCHANGED tree)
            /\ Silent /\ UNCHANGED <<subm, runv, dmv, goutc, cnt, user, userc, env, cntv>>
Flush(g) == /\ gr[g][1] = "flush"
            /\ IF \E x \in tree[g] : num[x[1]] = cnt[g]
               THEN LET x == CHOOSE y \in tree[g] : num[y[1]] = cnt[g] IN
                    gr' = [gr EXCEPT ![g] = <<"send", x>>] /\ tree' = [tree EXCEPT ![g] = @ \ {x}] /\ cnt' = [cnt EXCEPT ![g] = @ + 1]
               ELSE gr' = [gr EXCEPT ![g] = <<"wait", 0>>] /\ UNCHANGED <<tree, cnt>>
            /\ Silent /\ UNCHANGED <<subm, wg, pwg, runv, dmv, gout, goutc, user, userc, env, cntv>>
Send(g) == /\ gr[g][1] = "send" /\ Len(user[g]) < 1 /\ user' = [user EXCEPT ![g] = <<gr[g][2]>>]
           /\ gr' = [gr EXCEPT ![g] = <<IF Ordered THEN "flush" ELSE "wait", 0>>]
           /\ Silent /\ UNCHANGED <<subm, wg, pwg, runv, dmv, gout, goutc, tree, cnt, userc, env, cntv>>
GEnd(g) == /\ gr[g][1] = "wait" /\ gout[g] = <<>> /\ goutc[g] /\ userc' = [userc EXCEPT ![g] = TRUE] /\ gr' = [gr EXCEPT ![g] = <<"end", 0>>]
           /\ Silent /\ UNCHANGED <<subm, wg, pwg, runv, dmv, gout, goutc, tree, cnt, user, env, cntv>>
\* Consumer
Out(g) == /\ cs[g] = "wait" /\ user[g] # <<>> /\ cs' = [cs EXCEPT ![g] = "idle"]
          /\ LET r == user[g][1][1] IN
               /\ user' = [user EXCEPT ![g] = IF Bug = "dup" /\ (100 + r) \notin leak THEN @ ELSE <<>>]
               /\ leak' = (IF Bug = "dup" THEN leak \cup {100 + r} ELSE leak)
               /\ Emit([k |-> "out", g |-> g, r |-> r, t |-> pos[r] - 1, e |-> user[g][1][2], cy |-> user[g][1][2] = -4, now |-> 0])
          /\ UNCHANGED <<subm, wg, pwg, in, inc, rn, has, stp, seen, seenall, dmv, gout, goutc, gr, tree, cnt, userc, gs, cl, pc, sm, cx, cntv>>
Eof(g) == /\ cs[g] = "wait" /\ user[g] = <<>> /\ userc[g] /\ cs' = [cs EXCEPT ![g] = "end"] /\ Emit([k |-> "eof", g |-> g])
          /\ UNCHANGED <<subm, wg, pwg, runv, dmv, grv, gs, cl, pc, sm, cx, cntv>>
\* Close of a group
Drain(g) == /\ cl[g] = "called" /\ (wg[g] = 0 \/ Bug = "noclosewait") /\ cl' = [cl EXCEPT ![g] = "drained"]
            /\ Silent /\ UNCHANGED <<subm, wg, pwg, runv, dmv, grv, cs, gs, pc, sm, cx, cntv>>
Remove(g) == /\ cl[g] = "drained" /\ (dm[1] = 0 \/ Grp(dm[1]) # g) /\ goutc' = [goutc EXCEPT ![g] = TRUE] /\ map' = map \ {g}
             /\ cl' = [cl EXCEPT ![g] = "removed"]
             /\ Silent /\ UNCHANGED <<subm, wg, pwg, runv, out, outc, dm, gout, gr, tree, cnt, user, userc, cs, gs, pc, sm, cx, cntv>>
CloseRet(g) == /\ cl[g] = "removed" /\ cl' = [cl EXCEPT ![g] = "closed"] /\ Emit([k |-> "clret", g |-> g])
               /\ UNCHANGED <<subm, wg, pwg, runv, dmv, grv, cs, gs, pc, sm, cx, cntv>>
\* Close of the pipelines
PClose == /\ pc = "called" /\ pc' = "closing" /\ inc' = TRUE
          /\ Silent /\ UNCHANGED <<subm, wg, pwg, in, rn, has, stp, seen, seenall, leak, dmv, grv, cs, gs, cl, sm, cx, cntv>>
PCloseRet == /\ pc = "closing" /\ pc' = "closed" /\ Emit([k |-> "pclret", p |-> 1])
             /\ UNCHANGED <<subm, wg, pwg, runv, dmv, grv, cs, gs, cl, sm, cx, cntv>>
PDrain == /\ pc \in {"closing", "closed"} /\ sm = "open" /\ (pwg = 0 \/ Bug = "smearly") /\ outc' = TRUE /\ sm' = "out"
          /\ Silent /\ UNCHANGED <<subm, wg, pwg, runv, out, dm, map, grv, cs, gs, cl, pc, cx, cntv>>
SMClose == /\ sm = "out" /\ sm' = "closed" /\ Emit([k |-> "smc", p |-> 1])
           /\ UNCHANGED <<subm, wg, pwg, runv, dmv, grv, cs, gs, cl, pc, cx, cntv>>
Internal == \/ \E g \in Gp : Add(g) \/ Made(g) \/ GTake(g) \/ Flush(g) \/ Send(g) \/ GEnd(g) \/ Out(g) \/ Eof(g) \/ Drain(g) \/ Remove(g) \/ CloseRet(g)
            \/ \E r \in Rq : Lock(r) \/ Count(r) \/ Enter(r) \/ Refuse(r) \/ SubRet(r)
            \/ \E k \in Rn : Take(k) \/ End(k) \/ Check(k) \/ BeginStage(k) \/ Exit(k) \/ PutOut(k)
            \/ Demux \/ Forward \/ PClose \/ PCloseRet \/ PDrain \/ SMClose \/ (cx = 1 /\ Cancel)
Quiesce == /\ ~quiet /\ ~ENABLED Internal
           /\ LET e == [k |-> "q", now |-> 0, ss |-> <<[run |-> running, comp |-> completed, min |-> 0, avg |-> 0, max |-> 0, imin |-> 0, iavg |-> 0, imax |-> 0]>>] IN
                st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e)
           /\ quiet' = TRUE /\ UNCHANGED impl
Next == Internal \/ Env \/ Quiesce
Correct == bad = {}
\* The counters agree with what the contract knows.
Sane == /\ running >= 0 /\ pwg >= 0 /\ \A g \in Gp : wg[g] >= 0
        /\ pwg = 0 => \A r \in DOMAIN st.req : MayEnd(st, r) \/ ~st.req[r].ret
        /\ Cardinality(Busy(st, 1)) <= running
        /\ completed + running <= st.subs[1]
=============================================================================

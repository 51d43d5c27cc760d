------------------------------- MODULE DelayImpl ------------------------------
(***************************************************************************)
(* The delay warning of stagedpipe under the contract Pipe: R runners of     *)
(* one pipeline with a ticker each, N requests of one stage, a consumer that *)
(* receives when it likes, and time, which passes only at quiescence.  Bug   *)
(* selects wrong variants that TLC has to refute.                            *)
(***************************************************************************)
EXTENDS Pipe
CONSTANTS N, R, D, T,   \* requests, runners, DelayWarning (0: not set), end of time
          Bug

Rn == 1..R
VARIABLES now, in, out,        \* time; channels with room for one request
          sub, sst,             \* the request being submitted; submit: "idle", "send", "done"
          pc, has, next, tick,  \* runners: place, request, when the ticker ticks next, whether a tick is pending
          want,                 \* the consumer waits
          st, bad
chans == <<in, out>>
runr  == <<pc, has, next, tick>>
subm  == <<sub, sst>>
vars  == <<now, chans, subm, runr, want, st, bad>>

RECURSIVE EffAll(_, _), ViolAll(_, _)
EffAll(s, es)  == IF es = <<>> THEN s ELSE EffAll(Eff(s, Head(es)), Tail(es))
ViolAll(s, es) == IF es = <<>> THEN {} ELSE Viol(s, Head(es)) \cup ViolAll(Eff(s, Head(es)), Tail(es))
Emit(es) == st' = EffAll(st, es) /\ bad' = bad \cup ViolAll(st, es)
Silent == UNCHANGED <<st, bad>>

Init == /\ now = 0 /\ in = <<>> /\ out = <<>> /\ sub = 0 /\ sst = "idle" /\ want = FALSE /\ bad = {}
        /\ pc = [k \in Rn |-> "idle"] /\ has = [k \in Rn |-> 0] /\ next = [k \in Rn |-> D] /\ tick = [k \in Rn |-> FALSE]
        /\ st = EffAll(InitState([pipes |-> <<[cap |-> R, dag |-> FALSE, ordered |-> FALSE, npp |-> 0, delay |-> D]>>]),
                       <<[k |-> "ng", g |-> 1, p |-> 1], [k |-> "ngret", g |-> 1]>>)

Call == /\ sst = "idle" /\ sub < N /\ sub' = sub + 1 /\ sst' = "send"
        /\ Emit(<<[k |-> "sub", r |-> sub', g |-> 1, c |-> 0, t |-> 0, now |-> now]>>) /\ UNCHANGED <<now, chans, runr, want>>
Send == /\ sst = "send" /\ in = <<>> /\ in' = <<sub>> /\ sst' = "sent" /\ Silent /\ UNCHANGED <<now, out, sub, runr, want>>
Ret  == /\ sst = "sent" /\ sst' = "idle" /\ Emit(<<[k |-> "subret", r |-> sub, e |-> 0]>>) /\ UNCHANGED <<now, chans, sub, runr, want>>

Take(k) == /\ pc[k] = "idle" /\ in # <<>> /\ has' = [has EXCEPT ![k] = in[1]] /\ in' = <<>> /\ pc' = [pc EXCEPT ![k] = "run"]
           /\ Emit(<<[k |-> "st", r |-> in[1], m |-> 1, t |-> 0, now |-> now]>>) /\ UNCHANGED <<now, out, subm, next, tick, want>>
\* The environment lets the stage end when it likes.
End(k)  == /\ pc[k] = "run" /\ pc' = [pc EXCEPT ![k] = "push"]
           /\ Emit(<<[k |-> "en", r |-> has[k], m |-> 1, t |-> 0, e |-> 0, nx |-> 0, now |-> now]>>)
           /\ IF Bug = "noreset" THEN UNCHANGED <<next, tick>>
              ELSE next' = [next EXCEPT ![k] = now + D] /\ tick' = [tick EXCEPT ![k] = FALSE]
           /\ UNCHANGED <<now, chans, subm, has, want>>
Push(k) == /\ pc[k] \in {"push", "mute"} /\ out = <<>> /\ out' = <<has[k]>> /\ pc' = [pc EXCEPT ![k] = "idle"] /\ has' = [has EXCEPT ![k] = 0]
           /\ Silent /\ UNCHANGED <<now, in, subm, next, tick, want>>
Warn(k) == /\ pc[k] = "push" /\ tick[k] /\ tick' = [tick EXCEPT ![k] = FALSE] /\ next' = [next EXCEPT ![k] = now + D]
           /\ pc' = [pc EXCEPT ![k] = IF Bug = "once" THEN "mute" ELSE "push"]
           /\ Emit(IF Bug = "silent" THEN <<>> ELSE <<[k |-> "warn", p |-> 1, now |-> now]>>) /\ UNCHANGED <<now, chans, subm, has, want>>

Want == /\ ~want /\ want' = TRUE /\ Emit(<<[k |-> "rv", g |-> 1]>>) /\ UNCHANGED <<now, chans, subm, runr>>
Out  == /\ want /\ out # <<>> /\ want' = FALSE /\ out' = <<>>
        /\ Emit(<<[k |-> "out", g |-> 1, r |-> out[1], t |-> 0, e |-> 0, cy |-> FALSE, now |-> now]>>) /\ UNCHANGED <<now, in, subm, runr>>

Steps == Send \/ Ret \/ Out \/ \E k \in Rn : Take(k) \/ Push(k) \/ Warn(k)
\* Time passes at quiescence.
Quiescent == ~ENABLED Steps
Z == Times(st, 1, { r \in Of(st, 1) : Ended(st, r) })
W == Waits(st, 1, { r \in Of(st, 1) : Ended(st, r) } \cup Busy(st, 1))
Q == [k |-> "q", now |-> now,
      ss |-> <<[run |-> Cardinality(Busy(st, 1)), comp |-> Z.n, min |-> Pos(Z.min), avg |-> IF Z.n = 0 THEN 0 ELSE Z.sum \div Z.n, max |-> Z.max,
                imin |-> Pos(W.min), iavg |-> W.sum \div (IF W.n = 0 THEN 1 ELSE W.n), imax |-> W.max]>>]
Pass == /\ Quiescent /\ now < T
        /\ now' = now + 1
        /\ Emit(<<Q>>)
        /\ IF D = 0 THEN UNCHANGED <<next, tick>>
           ELSE tick' = [k \in Rn |-> tick[k] \/ next[k] = now'] /\ next' = [k \in Rn |-> IF next[k] = now' THEN now' + D ELSE next[k]]
        /\ UNCHANGED <<chans, subm, pc, has, want>>
Next == Call \/ Steps \/ Want \/ Pass \/ \E k \in Rn : End(k)
Spec == Init /\ [][Next]_vars
Correct == \A v \in bad : v[1] # "C33"
Sane == bad = {}
=============================================================================

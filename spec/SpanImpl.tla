------------------------------- MODULE SpanImpl -------------------------------
(***************************************************************************)
(* How stagedpipe (one group of N requests, each with two stages) and        *)
(* wait.Group (F functions in each of Rounds rounds) handle their spans,     *)
(* one action per atomic step, under the contract Span.  Bug selects wrong   *)
(* variants that TLC has to refute.                                          *)
(***************************************************************************)
EXTENDS Span
CONSTANTS N, Cancels,   \* requests; those whose Submit may be cancelled
          F, Rounds, Traced,  \* functions of a round; rounds; in these Go is called with a recording span
          Bug

R == 1..N
S == 2
VARIABLES gs, gpc,              \* span of the request group; its Close
          pc, stg, rs, ss, ctx, fail, wg,  \* requests: place, stage, span of the request, of the stage, of the context
          ws, once, wpc, rnd, fp, fx,    \* group: span, whether the once has run; Wait; round; functions: place, context
          st, bad
impl == <<gs, gpc, pc, stg, rs, ss, ctx, fail, wg, ws, once, wpc, rnd, fp, fx>>
vars == <<impl, st, bad>>

\* the numbers of the spans
GS    == 2
RS(r) == 10 * r
SS(r) == 10 * r + stg[r]
WS    == 100 + rnd

pipe == <<gs, gpc, pc, stg, rs, ss, ctx, fail, wg>>
group == <<ws, once, wpc, rnd, fp, fx>>

RECURSIVE EffAll(_, _), ViolAll(_, _)
EffAll(s, es)  == IF es = <<>> THEN s ELSE EffAll(Eff(s, Head(es)), Tail(es))
ViolAll(s, es) == IF es = <<>> THEN {} ELSE Viol(s, Head(es)) \cup ViolAll(Eff(s, Head(es)), Tail(es))
Emit(es) == st' = EffAll(st, es) /\ bad' = bad \cup ViolAll(st, es)
Silent == UNCHANGED <<st, bad>>
Starts(i, p) == [k |-> "ss", i |-> i, p |-> p]
Ends(i) == [k |-> "se", i |-> i]

Init == /\ gs = 0 /\ gpc = "open" /\ pc = [r \in R |-> "idle"] /\ stg = [r \in R |-> 1] /\ rs = [r \in R |-> 0]
        /\ ss = [r \in R |-> 0] /\ ctx = [r \in R |-> 1] /\ fail = [r \in R |-> FALSE] /\ wg = 0
        /\ ws = 0 /\ once = FALSE /\ wpc = "idle" /\ rnd = 1 /\ fp = [f \in 1..F |-> "idle"] /\ fx = [f \in 1..F |-> 0]
        /\ st = Eff(InitState([spans |-> TRUE]), [k |-> "round", g |-> 1]) /\ bad = {}
---------------------------------------------------------------------------
\* stagedpipe
P(r, a, b) == pc[r] = a /\ pc' = [pc EXCEPT ![r] = b]
Call(r) == /\ gpc = "open" /\ P(r, "idle", "called")
           /\ Emit(<<[k |-> "sub", r |-> r, g |-> 1]>>)
           /\ UNCHANGED <<gs, gpc, stg, rs, ss, ctx, fail, wg, group>>
First(r) == /\ P(r, "called", "first")   \* the once
            /\ IF gs = 0
               THEN gs' = GS /\ ctx' = [ctx EXCEPT ![r] = GS] /\ Emit(<<Starts(GS, 1)>>)
               ELSE UNCHANGED <<gs, ctx>> /\ Silent
            /\ UNCHANGED <<gpc, stg, rs, ss, fail, wg, group>>
Span1(r) == /\ P(r, "first", "sending")
            /\ rs' = [rs EXCEPT ![r] = IF Bug = "shared" /\ gs # 0 THEN gs ELSE RS(r)]
            /\ ctx' = [ctx EXCEPT ![r] = rs'[r]] /\ wg' = wg + 1
            /\ IF Bug = "shared" THEN Silent ELSE Emit(<<Starts(RS(r), ctx[r])>>)
            /\ UNCHANGED <<gs, gpc, stg, ss, fail, group>>
Refused(r) == /\ r \in Cancels /\ P(r, "sending", "over") /\ wg' = wg - 1
              /\ IF Bug = "leak" THEN Silent ELSE Emit(<<Ends(rs[r])>>)
              /\ UNCHANGED <<gs, gpc, stg, rs, ss, ctx, fail, group>>
Accepted(r) == /\ P(r, "sending", "stage") /\ Silent
               /\ UNCHANGED <<gs, gpc, stg, rs, ss, ctx, fail, wg, group>>
StageSpan(r) == /\ P(r, "stage", "run")
                /\ ss' = [ss EXCEPT ![r] = SS(r)]
                /\ ctx' = [ctx EXCEPT ![r] = SS(r)]
                /\ Emit(<<Starts(SS(r), ctx[r])>>)
                /\ UNCHANGED <<gs, gpc, stg, rs, fail, wg, group>>
Run(r) == /\ P(r, "run", "ran") /\ Emit(<<[k |-> "st", r |-> r, sp |-> ss[r]]>>)
          /\ UNCHANGED <<gs, gpc, stg, rs, ss, ctx, fail, wg, group>>
Ran(r) == /\ P(r, "ran", "end") /\ fail' \in {fail, [fail EXCEPT ![r] = TRUE]}
          /\ Emit(<<[k |-> "en", r |-> r, sp |-> ss[r]]>>)
          /\ UNCHANGED <<gs, gpc, stg, rs, ss, ctx, wg, group>>
StageEnd(r) == /\ pc[r] = "end"
               /\ pc' = [pc EXCEPT ![r] = IF fail[r] \/ stg[r] = S THEN "out" ELSE "stage"]
               /\ stg' = [stg EXCEPT ![r] = @ + 1]
               /\ ctx' = [ctx EXCEPT ![r] = IF Bug = "chain" THEN @ ELSE rs[r]]
               /\ CASE Bug = "noend" -> Silent
                    [] Bug = "onerr" /\ fail[r] -> Silent
                    [] Bug = "twice" -> Emit(<<Ends(ss[r]), Ends(ss[r])>>)
                    [] OTHER -> Emit(<<Ends(ss[r])>>)
               /\ UNCHANGED <<gs, gpc, rs, ss, fail, wg, group>>
Fin(r) == (IF fail[r] /\ Bug # "nostatus" THEN <<[k |-> "sx", i |-> rs[r]]>> ELSE <<>>) \o <<Ends(rs[r])>>
OtelEnd(r) == /\ IF Bug = "late" THEN P(r, "counted", "deliver") ELSE P(r, "out", "ended")
              /\ Emit(Fin(r))
              /\ UNCHANGED <<gs, gpc, stg, rs, ss, ctx, fail, wg, group>>
WgDone(r) == /\ IF Bug = "late" THEN P(r, "out", "counted") ELSE P(r, "ended", "deliver")
             /\ wg' = wg - 1 /\ Silent
             /\ UNCHANGED <<gs, gpc, stg, rs, ss, ctx, fail, group>>
Out(r) == /\ P(r, "deliver", "over")
          /\ Emit(<<[k |-> "out", r |-> r, e |-> IF fail[r] THEN 1 ELSE 0, sp |-> ctx[r]]>>)
          /\ UNCHANGED <<gs, gpc, stg, rs, ss, ctx, fail, wg, group>>
Close == /\ gpc = "open" /\ (\A r \in R : pc[r] \notin {"called", "first", "sending"}) /\ gpc' = "closing" /\ Silent
         /\ UNCHANGED <<gs, pc, stg, rs, ss, ctx, fail, wg, group>>
CloseEnd == /\ gpc = "closing" /\ wg = 0 /\ gpc' = "closed"
            /\ IF gs = 0 \/ Bug = "gnoend" THEN Emit(<<[k |-> "clret", g |-> 1]>>) ELSE Emit(<<Ends(gs), [k |-> "clret", g |-> 1]>>)
            /\ UNCHANGED <<gs, pc, stg, rs, ss, ctx, fail, wg, group>>
---------------------------------------------------------------------------
\* wait.Group
Tr == rnd \in Traced
Go(f) == /\ wpc = "idle" /\ fp[f] = "idle" /\ fp' = [fp EXCEPT ![f] = "go"] /\ once' = TRUE
         /\ IF ~once /\ Tr
            THEN ws' = WS /\ fx' = [fx EXCEPT ![f] = WS]
                 /\ Emit(<<[k |-> "go", g |-> 1, tr |-> TRUE], Starts(WS, 1)>>)
            ELSE UNCHANGED ws /\ fx' = [fx EXCEPT ![f] = IF ws # 0 /\ Bug # "discard" THEN ws ELSE IF Tr THEN 1 ELSE 0]
                 /\ Emit(<<[k |-> "go", g |-> 1, tr |-> Tr]>>)
         /\ UNCHANGED <<pipe, wpc, rnd>>
Start(f) == /\ fp[f] = "go" /\ fp' = [fp EXCEPT ![f] = "run"] /\ Emit(<<[k |-> "start", g |-> 1, sp |-> fx[f]]>>)
            /\ UNCHANGED <<pipe, ws, once, wpc, rnd, fx>>
End(f) == /\ fp[f] = "run" /\ fp' = [fp EXCEPT ![f] = "over"] /\ Emit(<<[k |-> "end", g |-> 1, sp |-> fx[f]]>>)
          /\ UNCHANGED <<pipe, ws, once, wpc, rnd, fx>>
Wait == /\ wpc = "idle" /\ wpc' = "wait"
        /\ IF Bug = "wearly" /\ ws # 0 THEN Emit(<<Ends(ws)>>) ELSE Silent
        /\ UNCHANGED <<pipe, ws, once, rnd, fp, fx>>
WaitEnd == /\ wpc = "wait" /\ (\A f \in 1..F : fp[f] \in {"idle", "over"}) /\ wpc' = "ret"
           /\ IF ws # 0 /\ st.sp[ws].open /\ Bug # "wnoend" THEN Emit(<<Ends(ws)>>) ELSE Silent
           /\ UNCHANGED <<pipe, ws, once, rnd, fp, fx>>
WaitRet == /\ wpc = "ret" /\ wpc' = (IF rnd < Rounds THEN "idle" ELSE "over") /\ rnd' = rnd + 1 /\ once' = FALSE
           /\ ws' = (IF Bug = "stale" THEN ws ELSE 0) /\ fp' = [f \in 1..F |-> "idle"]
           /\ Emit(<<[k |-> "waitret", g |-> 1], [k |-> "round", g |-> 1]>>)
           /\ UNCHANGED <<pipe, fx>>
---------------------------------------------------------------------------
Pipe == (\E r \in R : Call(r) \/ First(r) \/ Span1(r) \/ Refused(r) \/ Accepted(r) \/ StageSpan(r) \/ Run(r) \/ Ran(r) \/ StageEnd(r)
                      \/ OtelEnd(r) \/ WgDone(r) \/ Out(r)) \/ Close \/ CloseEnd
Group == (\E f \in 1..F : Go(f) \/ Start(f) \/ End(f)) \/ Wait \/ WaitEnd \/ WaitRet
Done == (N = 0 \/ gpc = "closed") /\ (\A r \in R : pc[r] \in {"idle", "over"}) /\ (F = 0 \/ wpc = "over") /\ gpc # "done"
Over == Done /\ gpc' = "done" /\ Emit(<<[k |-> "leak"]>>) /\ UNCHANGED <<gs, pc, stg, rs, ss, ctx, fail, wg, group>>
Next == (N > 0 /\ Pipe) \/ (F > 0 /\ Group) \/ Over

Correct == bad = {}
Sane == wg >= 0 /\ (gpc = "done" => \A i \in DOMAIN st.sp : ~st.sp[i].open)
=============================================================================

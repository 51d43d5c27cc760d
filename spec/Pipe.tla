--------------------------------- MODULE Pipe ---------------------------------
(***************************************************************************)
(* Contract of pipelines/stagedpipe: any number of Pipelines with request   *)
(* groups, submitters, consumers and cancellations.  Pipelines, groups,     *)
(* requests, contexts, stages (1 is Start) and preprocessors are numbered;  *)
(* t are versions of the data of a request, each step makes a new one; now  *)
(* is the virtual time.  Events:                                            *)
(*   ng g p / ngret g        NewRequestGroup is called / returned           *)
(*   sub r g c t now         Submit of request r with context c (-1: nil)   *)
(*   subret r e              Submit returned: 0 nil, -1/-2 plain context    *)
(*                           error, -3 another error                        *)
(*   pb r i t now / pe r i t e now     preprocessor i begins / ends         *)
(*   st r m t now / en r m t e nx now  stage m begins / ends with error e,  *)
(*                           having selected stage nx (0: none)             *)
(*   rv g / out g r t e cy now   a consumer waits / received r              *)
(*   eof g                   a waiting consumer saw the end of the output   *)
(*   cl g / clret g          Close of the group                             *)
(*   pcl p / pclret p        Close of the pipelines                         *)
(*   smc p                   Close of the state machine                     *)
(*   cancel c e / cancelled c    context c is about to be / was cancelled   *)
(*   stat i p / statret i run comp    Stats at any time                     *)
(*   octx r                  a step got, or r came out with, another context*)
(*                           than r was submitted with, or one that is not  *)
(*                           cancelled when that one is                     *)
(*   warn p now              a delay of the output of p is logged           *)
(*   bnew v ok good d cl     New was called with arguments that are not     *)
(*                           (good: that are) valid; it succeeded (ok), d   *)
(*                           goroutines were left, the state machine was    *)
(*                           used cl times                                  *)
(*   q ss now                quiescence, with the Stats of every pipelines  *)
(*   leak n                  n goroutines are left at the end               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Empty        == [x \in {} |-> 0]
If(c, v)     == IF c THEN {v} ELSE {}
Min2(a, b)   == IF a < b THEN a ELSE b
Max2(a, b)   == IF a > b THEN a ELSE b

\* cfg.pipes: for every Pipelines cap (parallelism times stages), dag, ordered, npp, delay (DelayWarning; 0: not set)
InitState(cfg) ==
  [ pipe |-> cfg.pipes,
    grp  |-> Empty,     \* group -> [p, made, wt (consumers waiting), cl 0..2, eof]
    req  |-> Empty,     \* requests that may still matter
    fin  |-> [p \in DOMAIN cfg.pipes |-> [n |-> 0, min |-> -1, max |-> 0, sum |-> 0,      \* delivered: processing times
                                          wmin |-> -1, wminhi |-> -1, wmaxlo |-> 0, wmax |-> 0, wsum |-> 0, wsumhi |-> 0]],  \* and waiting times
    subs |-> [p \in DOMAIN cfg.pipes |-> 0],  \* Submit calls so far
    gone |-> {},        \* requests that were delivered or refused
    cc |-> Empty,       \* contexts being cancelled -> their error
    cd |-> {},          \* contexts that were cancelled
    pcl |-> [p \in DOMAIN cfg.pipes |-> 0], smc |-> {},
    stats |-> Empty,
    \* since t all of p waits for its output, and n warnings were logged since then
    blk |-> [p \in DOMAIN cfg.pipes |-> [t |-> -1, n |-> 0]] ]

\* A request: ret: Submit has returned nil; ph: new, run, done; in: executing a step; pos: the preprocessors done
\* for stage next; must: executes no further stage; prev: requests of its group that were accepted before its Submit
New(s, e) == [ g |-> e.g, p |-> s.grp[e.g].p, c |-> e.c, ret |-> FALSE, ph |-> "new", in |-> FALSE, pos |-> 0, next |-> 1,
               seen |-> {}, tok |-> e.t, err |-> 0, must |-> e.c \in s.cd, t0 |-> e.now, t1 |-> -1, t2 |-> -1,
               prev |-> { x \in DOMAIN s.req : s.req[x].g = e.g /\ s.req[x].ret } ]

Known(s, r)  == r \in DOMAIN s.req
Of(s, p)     == { r \in DOMAIN s.req : s.req[r].p = p }
Busy(s, p)   == { r \in Of(s, p) : s.req[r].in }
Groups(s, p) == { g \in DOMAIN s.grp : s.grp[g].p = p }
Dag(s, r)    == s.pipe[s.req[r].p].dag
\* It is at a stage boundary, where a request ends that was cancelled or returns to a stage.
Boundary(s, r) == LET x == s.req[r] IN ~x.in /\ x.ph # "done" /\ x.pos = 0
Cyclic(s, r) == Dag(s, r) /\ s.req[r].next \in s.req[r].seen
\* Its processing has ended / may have ended. (A request that was never started may have ended if it was cancelled.)
Ended(s, r)  == LET x == s.req[r] IN x.ph = "done" \/ (x.ph = "run" /\ Boundary(s, r) /\ (x.c \in DOMAIN s.cc \/ Cyclic(s, r)))
MayEnd(s, r) == Ended(s, r) \/ (s.req[r].ph = "new" /\ s.req[r].c \in DOMAIN s.cc)
Accepted(s, p) == { r \in Of(s, p) : s.req[r].ret }
\* Nothing is held up by outputs that nobody receives from.
Drained(s, p) == \A r \in Of(s, p) : MayEnd(s, r) => s.grp[s.req[r].g].wt > 0
\* Earlier requests hold it back.
Held(s, r) == s.pipe[s.req[r].p].ordered
              /\ \E x \in Accepted(s, s.req[r].p) : s.req[x].g = s.req[r].g /\ x # r /\ ~Ended(s, x) /\ r \notin s.req[x].prev

\* Whom it concerns if a request does not come out.
Loss(s, p) == {"C19"} \cup If(s.pipe[p].ordered, "C22") \cup If(DOMAIN s.cc # {}, "C23")
              \cup If(Cardinality(Groups(s, p)) > 1, "C27") \cup If(s.pcl[p] > 0, "C25")
Say(ps, m) == { <<p, m>> : p \in ps }
All == {"C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C32", "C33"}

\* The next step of request r is a preprocessor or stage.
Step(s, e, first) ==
  IF ~Known(s, e.r) THEN
    IF e.r \in s.gone THEN {<<"C20", "a request is processed that has left or was refused">>}
    ELSE {<<"C20", "a request is processed that was not submitted">>}
  ELSE LET x == s.req[e.r] IN
    If(x.in \/ x.ph = "done", <<"C20", "a step is executed for a request that executes another one or has ended">>)
    \cup If(e.t # x.tok, <<"C20", "a step gets other data than the last step produced">>)
    \cup If(first /\ x.must, <<"C23", "a stage begins although the context was cancelled before">>)
    \cup If(~x.in /\ x.ph # "done" /\ Cyclic(s, e.r), <<"C21", "a stage is executed again in DAG mode">>)
    \cup If(~x.in /\ Cardinality(Busy(s, x.p)) >= s.pipe[x.p].cap, <<"C24", "more requests are processed than there are stages">>)
    \cup If(x.p \in s.smc, <<"C25", "a step is executed after the state machine was closed">>)

OutReq(s, e) ==
  LET x == s.req[e.r]
      ce == x.c \in DOMAIN s.cc /\ e.e = s.cc[x.c]
      cy == e.cy /\ Cyclic(s, e.r) IN
    If(x.g # e.g, <<"C19", "a request comes out on another group">>) \cup If(x.g # e.g, <<"C27", "a request comes out on another group">>)
    \cup If(e.t # x.tok, <<"C20", "a request comes out with other data than the last step produced">>)
    \cup If(e.cy /\ ~Cyclic(s, e.r), <<"C21", "a cyclic error although no stage was revisited">>)
    \cup If(x.in, <<"C20", "a request comes out while a step is executed for it">>)
    \cup (IF x.in THEN {}
          ELSE IF x.ph = "done" THEN If(e.e # x.err \/ e.cy, <<"C20", "a request comes out with another error than the last step produced">>)
          ELSE IF x.pos # 0 THEN {<<"C20", "a request comes out although its stage has not been executed">>}
          ELSE IF cy \/ ce THEN {}
          ELSE If(x.must \/ (x.c \in s.cd /\ ~Cyclic(s, e.r)), <<"C23", "a cancelled request comes out without the error of its context">>)
               \cup If(Cyclic(s, e.r), <<"C21", "a request comes out without a cyclic error although it returned to a stage">>)
               \cup If(~x.must /\ ~Cyclic(s, e.r) /\ ~e.cy, <<"C20", "a request comes out although it had selected another stage">>))
    \cup If(s.pipe[x.p].ordered /\ \E y \in x.prev : Known(s, y), <<"C22", "a request comes out before one that was accepted earlier">>)

Lost(s, g) == { r \in DOMAIN s.req : s.req[r].g = g /\ s.req[r].ret }

\* Statistics of pipelines p at quiescence.
Times(s, p, rs) ==   \* processing times of requests that have ended but were not delivered
  LET F[R \in SUBSET rs] ==
        IF R = {} THEN [n |-> s.fin[p].n, min |-> s.fin[p].min, max |-> s.fin[p].max, sum |-> s.fin[p].sum]
        ELSE LET r == CHOOSE x \in R : TRUE
                 f == F[R \ {r}]
                 d == s.req[r].t2 - s.req[r].t1 IN
             [n |-> f.n + 1, min |-> IF f.min < 0 THEN d ELSE Min2(f.min, d), max |-> Max2(f.max, d), sum |-> f.sum + d]
  IN F[rs]
Waits(s, p, rs) ==
  LET F[R \in SUBSET rs] ==
        IF R = {} THEN [n |-> s.fin[p].n, min |-> s.fin[p].wmin, minhi |-> s.fin[p].wminhi, maxlo |-> s.fin[p].wmaxlo, max |-> s.fin[p].wmax,
                        sum |-> s.fin[p].wsum, sumhi |-> s.fin[p].wsumhi]
        ELSE LET r == CHOOSE x \in R : TRUE
                 f == F[R \ {r}]
                 d == s.req[r].t1 - s.req[r].t0 IN
             [n |-> f.n + 1, min |-> IF f.min < 0 THEN d ELSE Min2(f.min, d), minhi |-> IF f.minhi < 0 THEN d ELSE Min2(f.minhi, d),
              maxlo |-> Max2(f.maxlo, d), max |-> Max2(f.max, d), sum |-> f.sum + d, sumhi |-> f.sumhi + d]
  IN F[rs]
Pos(a) == IF a < 0 THEN 0 ELSE a
StatsViol(s, p, z) ==
  LET ended == { r \in Of(s, p) : Ended(s, r) }
      maybe == { r \in Of(s, p) : ~Ended(s, r) /\ MayEnd(s, r) /\ s.req[r].ret }
      busy  == Busy(s, p)
      f == Times(s, p, ended)
      w == Waits(s, p, ended \cup busy) IN
    If(z.run # Cardinality(busy), <<"C26", "Running is not the number of requests being processed">>)
    \cup If(z.comp < f.n \/ z.comp > f.n + Cardinality(maybe), <<"C26", "Completed is not the number of requests that were processed">>)
    \cup (IF maybe # {} \/ z.comp # f.n THEN {}
          ELSE If(z.min # Pos(f.min), <<"C26", "Min is not the smallest processing time">>)
               \cup If(z.max # f.max, <<"C26", "Max is not the largest processing time">>)
               \cup If(z.avg # (IF f.n = 0 THEN 0 ELSE f.sum \div f.n), <<"C26", "Avg is not the mean processing time">>)
               \cup If(z.imin < Pos(w.min) \/ z.imin > Pos(w.minhi), <<"C26", "the ingest Min is not the smallest waiting time">>)
               \cup If(z.imax < w.maxlo \/ z.imax > w.max, <<"C26", "the ingest Max is not the largest waiting time">>)
               \cup (LET n == IF w.n = 0 THEN 1 ELSE w.n IN
                     If(z.iavg < w.sum \div n \/ z.iavg > w.sumhi \div n, <<"C26", "the ingest Avg is not the mean waiting time">>)))

\* At quiescence: every stage of p waits for the output, since a Submit cannot hand over its request.
Stuck(s, p) == s.pipe[p].delay > 0 /\ Busy(s, p) = {} /\ \E r \in Of(s, p) : ~s.req[r].ret
Overdue(s, p, now) == s.blk[p].t >= 0 /\ now - s.blk[p].t > s.pipe[p].delay
Quiet(s, e, p) ==
  LET dr == Drained(s, p)
      busy == Busy(s, p)
      acc == Accepted(s, p)
      pend == { r \in Of(s, p) : ~s.req[r].ret }
      idle == { r \in Of(s, p) : s.req[r].ph = "new" /\ ~(r \in acc /\ MayEnd(s, r) /\ Held(s, r)) } IN
    If(\E r \in Of(s, p) : ~s.req[r].in /\ s.req[r].ph = "run" /\ ~Ended(s, r), <<"C20", "the next step of a request is not executed">>)
    \cup If(\E r \in pend : s.req[r].c \in s.cd, <<"C23", "Submit does not return although its context was cancelled">>)
    \cup If(\E r \in pend : s.req[r].ph # "new", <<"C24", "Submit does not return although its request has been taken">>)
    \cup (IF dr /\ idle # {} /\ Cardinality(busy) < s.pipe[p].cap
          THEN {<<"C24", "a request waits although not all stages are in use">>}
               \cup If(DOMAIN s.cc # {}, <<"C23", "a request is not processed after others were cancelled">>)
               \cup (IF busy = {} THEN Say(Loss(s, p), "a request is not processed") ELSE {})
          ELSE {})
    \cup (IF dr /\ \E r \in acc : Ended(s, r) /\ ~Held(s, r) THEN Say(Loss(s, p), "a request does not come out") ELSE {})
    \cup UNION { LET x == s.grp[g] IN
                 If(~x.made, <<"C27", "NewRequestGroup does not return">>)
                 \cup (IF x.eof /\ Lost(s, g) # {} THEN Say(Loss(s, p), "the output ends although requests have not come out") ELSE {})
                 \cup (IF x.cl = 1 /\ ~\E r \in Of(s, p) : s.req[r].g = g THEN Say(Loss(s, p), "Close of a group does not return") ELSE {})
                 \cup (IF x.cl = 2 /\ x.wt > 0 /\ ~\E r \in Of(s, p) : s.req[r].g = g THEN Say(Loss(s, p), "the output of a closed group is not closed") ELSE {})
                 : g \in Groups(s, p) }
    \cup If(s.pcl[p] = 1, <<"C25", "Close of the pipelines does not return">>)
    \cup If(s.pcl[p] = 2 /\ Of(s, p) = {} /\ p \notin s.smc, <<"C25", "the state machine is not closed">>)
    \cup StatsViol(s, p, e.ss[p])
    \cup (IF Stuck(s, p) /\ Overdue(s, p, e.now)   \* every request of the finished ones that occupy p has waited that long
          THEN If(s.blk[p].n = 0, <<"C33", "a delay of the output is not logged">>)
               \cup If(s.blk[p].n < s.pipe[p].cap, <<"C33", "the delay of a request is not logged">>)
          ELSE {})

Viol(s, e) ==
  CASE e.k \in {"ng", "ngret", "rv", "cancel", "cancelled", "stat", "pcl", "pclret", "cl"} -> {}
    [] e.k = "sub" -> {}
    [] e.k = "subret" ->
         IF e.e = 0 THEN {}
         ELSE (IF e.r \in s.gone THEN {<<"C19", "a refused request comes out">>}
               ELSE LET x == s.req[e.r] IN
                 If(x.ph # "new", <<"C19", "a refused request is processed">>)
                 \cup (IF x.c = -1 THEN {}
                       ELSE If(x.c \notin DOMAIN s.cc, <<"C23", "Submit fails although its context was not cancelled">>)
                            \cup If(x.c \notin DOMAIN s.cc /\ Cardinality(Groups(s, x.p)) > 1, <<"C27", "Submit fails">>)
                            \cup If(x.c \in DOMAIN s.cc /\ e.e # s.cc[x.c], <<"C23", "Submit returns another error than that of its context">>)))
    [] e.k = "pb" -> Step(s, e, Known(s, e.r) /\ s.req[e.r].pos = 0)
                     \cup (IF Known(s, e.r) /\ e.i # s.req[e.r].pos + 1 THEN {<<"C20", "the preprocessors are not executed in order">>} ELSE {})
    [] e.k = "st" -> Step(s, e, Known(s, e.r) /\ s.req[e.r].pos = 0)
                     \cup (IF Known(s, e.r) /\ s.req[e.r].pos # s.pipe[s.req[e.r].p].npp
                           THEN {<<"C20", "a stage is executed before its preprocessors">>} ELSE {})
                     \cup (IF Known(s, e.r) /\ ~s.req[e.r].in /\ s.req[e.r].ph # "done" /\ e.m # s.req[e.r].next
                           THEN {<<"C20", "another stage is executed than the selected one">>} ELSE {})
                     \cup (IF Known(s, e.r) /\ Dag(s, e.r) /\ e.m \in s.req[e.r].seen
                           THEN {<<"C21", "a stage is executed twice in DAG mode">>} ELSE {})
    [] e.k \in {"pe", "en"} -> {}
    [] e.k = "out" ->
         IF Known(s, e.r) THEN OutReq(s, e)
         ELSE {<<"C19", IF e.r \in s.gone THEN "a request comes out twice or although it was refused" ELSE "a request comes out that was not submitted">>}
    [] e.k = "eof" ->
         If(s.grp[e.g].cl = 0, <<"C19", "the output ends although the group is open">>)
         \cup (IF Lost(s, e.g) # {} /\ s.grp[e.g].wt = 1 THEN Say(Loss(s, s.grp[e.g].p), "the output ends although requests have not come out") ELSE {})
    [] e.k = "clret" ->
         IF \E r \in Lost(s, e.g) : ~MayEnd(s, r) THEN {<<"C19", "Close of a group returns before a request was processed">>} ELSE {}
    [] e.k = "smc" ->
         If(e.p \in s.smc, <<"C25", "the state machine is closed twice">>)
         \cup If(s.pcl[e.p] = 0, <<"C25", "the state machine is closed before the pipelines">>)
         \cup If(\E r \in Of(s, e.p) : ~MayEnd(s, r), <<"C25", "the state machine is closed although a request is being processed">>)
    [] e.k = "statret" ->
         LET z == s.stats[e.i] IN
           If(e.run < 0 \/ e.run > s.pipe[z.p].cap, <<"C26", "Running is out of range">>)
           \cup If(e.comp < z.lo \/ e.comp > s.subs[z.p], <<"C26", "Completed is out of range">>)
    [] e.k = "q" -> UNION { Quiet(s, e, p) : p \in DOMAIN s.pipe } \cup If(DOMAIN s.stats # {}, <<"C26", "Stats does not return">>)
    [] e.k = "warn" ->
         IF s.pipe[e.p].delay = 0 THEN {<<"C33", "a delay is logged although no DelayWarning was asked for">>}
         ELSE If(~\E r \in Of(s, e.p) : MayEnd(s, r) /\ e.now - Max2(s.req[r].t0, s.req[r].t2) >= s.pipe[e.p].delay,
                 <<"C33", "a delay is logged although no request has waited that long for the output">>)
    [] e.k = "bnew" ->
         If(~e.good /\ e.ok, <<"C32", "New accepts invalid arguments">>)
         \cup If(e.good /\ ~e.ok, <<"C32", "New refuses valid arguments">>)
         \cup If(e.d # 0, <<"C32", "goroutines are left of pipelines that were refused or closed">>)
         \cup If(e.good /\ e.ok /\ e.cl # 1, <<"C25", "the state machine of an unused pipeline is not closed once">>)
         \cup If(e.cl # (IF e.good THEN 1 ELSE 0), <<"C32", "the state machine of a refused pipeline is used, or that of an unused one not just closed">>)
    [] e.k = "octx" -> {<<"C20", "a request has lost its context">>}
    [] e.k = "leak" -> If(e.n > 0, <<"C25", "goroutines are left over">>)
    [] e.k \in {"crash", "race", "hang", "stuck"} -> Say(All, "the pipelines crash, race or hang")
    [] OTHER -> {<<"MODEL", "unknown event">>}

Deliver(s, e) ==
  LET x == s.req[e.r]
      f == s.fin[x.p]
      d == x.t2 - x.t1                                       \* -1 - -1 if no step was executed
      lo == IF x.t1 < 0 THEN 0 ELSE x.t1 - x.t0
      hi == IF x.t1 < 0 THEN e.now - x.t0 ELSE x.t1 - x.t0
      mn(a, b) == IF a < 0 THEN b ELSE Min2(a, b) IN
  [ s EXCEPT !.req = Drop(@, e.r), !.gone = @ \cup {e.r}, !.grp[e.g].wt = @ - 1,
             !.fin[x.p] = [ n |-> f.n + 1, min |-> mn(f.min, d), max |-> Max2(f.max, d), sum |-> f.sum + d,
                            wmin |-> mn(f.wmin, lo), wminhi |-> mn(f.wminhi, hi), wmaxlo |-> Max2(f.wmaxlo, lo), wmax |-> Max2(f.wmax, hi),
                            wsum |-> f.wsum + lo, wsumhi |-> f.wsumhi + hi ] ]

Begin(x, now) == [ x EXCEPT !.in = TRUE, !.ph = "run", !.t1 = IF @ < 0 THEN now ELSE @ ]
\* What may end a wait for the output.
Free(s, e) == IF e.k \in {"q", "stat", "statret", "bnew"} THEN s
              ELSE IF e.k = "warn" THEN [ s EXCEPT !.blk[e.p].n = @ + 1 ]
              ELSE [ s EXCEPT !.blk = [ p \in DOMAIN @ |-> [t |-> -1, n |-> 0] ] ]
Eff1(s, e) ==
  CASE e.k = "ng" -> [ s EXCEPT !.grp = Put(@, e.g, [p |-> e.p, made |-> FALSE, wt |-> 0, cl |-> 0, eof |-> FALSE]) ]
    [] e.k = "ngret" -> [ s EXCEPT !.grp[e.g].made = TRUE ]
    [] e.k = "sub" -> [ s EXCEPT !.req = Put(@, e.r, New(s, e)), !.subs[s.grp[e.g].p] = @ + 1 ]
    [] e.k = "subret" ->
         IF e.r \in s.gone THEN s
         ELSE IF e.e = 0 THEN [ s EXCEPT !.req[e.r].ret = TRUE ]
         ELSE [ s EXCEPT !.req = Drop(@, e.r), !.gone = @ \cup {e.r} ]
    [] e.k \in {"pb", "st"} -> IF ~Known(s, e.r) THEN s ELSE [ s EXCEPT !.req[e.r] = Begin(@, e.now) ]
    [] e.k = "pe" ->
         IF ~Known(s, e.r) THEN s
         ELSE [ s EXCEPT !.req[e.r] = [ @ EXCEPT !.in = FALSE, !.tok = e.t, !.pos = e.i, !.t2 = e.now,
                                                 !.ph = IF e.e # 0 THEN "done" ELSE "run", !.err = e.e ] ]
    [] e.k = "en" ->
         IF ~Known(s, e.r) THEN s
         ELSE [ s EXCEPT !.req[e.r] = [ @ EXCEPT !.in = FALSE, !.tok = e.t, !.pos = 0, !.t2 = e.now, !.next = e.nx, !.seen = @ \cup {e.m},
                                                 !.ph = IF e.e # 0 \/ e.nx = 0 THEN "done" ELSE "run", !.err = e.e ] ]
    [] e.k = "rv" -> [ s EXCEPT !.grp[e.g].wt = @ + 1 ]
    [] e.k = "out" -> IF Known(s, e.r) THEN Deliver(s, e) ELSE [ s EXCEPT !.grp[e.g].wt = @ - 1 ]
    [] e.k = "eof" -> [ s EXCEPT !.grp[e.g].wt = @ - 1, !.grp[e.g].eof = TRUE ]
    [] e.k = "cl" -> [ s EXCEPT !.grp[e.g].cl = 1 ]
    [] e.k = "clret" -> [ s EXCEPT !.grp[e.g].cl = 2 ]
    [] e.k = "pcl" -> [ s EXCEPT !.pcl[e.p] = 1 ]
    [] e.k = "pclret" -> [ s EXCEPT !.pcl[e.p] = 2 ]
    [] e.k = "smc" -> [ s EXCEPT !.smc = @ \cup {e.p} ]
    [] e.k = "cancel" -> [ s EXCEPT !.cc = Put(@, e.c, e.e) ]
    [] e.k = "cancelled" ->    \* a stage that is being executed now is the last one
         [ s EXCEPT !.cd = @ \cup {e.c},
                    !.req = [ r \in DOMAIN @ |-> IF @[r].c = e.c /\ @[r].in /\ @[r].pos = s.pipe[@[r].p].npp THEN [ @[r] EXCEPT !.must = TRUE ] ELSE @[r] ] ]
    [] e.k = "stat" -> [ s EXCEPT !.stats = Put(@, e.i, [p |-> e.p, lo |-> s.fin[e.p].n]) ]
    [] e.k = "statret" -> [ s EXCEPT !.stats = Drop(@, e.i) ]
    [] e.k = "q" ->            \* no step is about to begin
         [ s EXCEPT !.blk = [ p \in DOMAIN @ |-> IF ~Stuck(s, p) THEN [t |-> -1, n |-> 0] ELSE IF @[p].t < 0 \/ Overdue(s, p, e.now) THEN [t |-> e.now, n |-> 0] ELSE @[p] ],
                    !.req = [ r \in DOMAIN @ |-> IF @[r].c \in s.cd /\ (~@[r].in \/ @[r].pos = s.pipe[@[r].p].npp) THEN [ @[r] EXCEPT !.must = TRUE ] ELSE @[r] ] ]
    [] OTHER -> s
Eff(s, e) == IF \E p \in DOMAIN s.pipe : s.pipe[p].delay > 0 THEN Free(Eff1(s, e), e) ELSE Eff1(s, e)
=============================================================================

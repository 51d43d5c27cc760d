-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* Contract of a goroutine pool (goroutines/limited and goroutines/pooled). *)
(*                                                                          *)
(* The state is what a user can know about a pool from the calls made so    *)
(* far.  Every observable event e has an effect Eff(s, e) and a set         *)
(* Viol(s, e) of broken obligations; a pool is correct iff no event of any  *)
(* of its histories breaks an obligation.  Events:                          *)
(*   sub j nb       Submit of job j is called (nb: with NonBlocking)        *)
(*   subret j ok x  that call returns (ok: without an error; x: its context *)
(*                  is cancelled)                                           *)
(*   start j c / end j   the job begins (c: with its own context) / ends    *)
(*   octx j         at quiescence the context of the running job j is       *)
(*                  cancelled and its own is not, or the other way around   *)
(*   bad b / badret b ok an invalid Submit is called / returns              *)
(*   wait w cl / waitret w r   Wait (cl: Close) is called / returns and     *)
(*                  Running read directly afterwards is r                   *)
(*   run i / runret i v   Running is called / returns v                     *)
(*   len v          Len returned v                                          *)
(*   q r l          quiescence: nothing can happen any more unless the      *)
(*                  environment acts; Running is r and Len is l             *)
(*   leak n         n goroutines are left over after Close                  *)
(*   crash, race, hang, stuck  the program panicked / has a data race /     *)
(*                  does not make progress                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Empty        == [x \in {} |-> 0]

InitState(cfg) ==
  [ kind |-> cfg.kind, size |-> cfg.size,
    called |-> {},     \* jobs whose Submit was called
    nbs |-> {},        \* those with NonBlocking
    ret |-> {},        \* Submit has returned without error
    failed |-> {},     \* Submit has returned an error
    started |-> {}, ended |-> {},
    settled |-> {},    \* ended before the last quiescence
    waits |-> Empty,   \* pending Wait or Close -> what is known about it
    bads |-> {}, nbad |-> 0,
    runs |-> Empty,    \* pending Running -> bounds of what it may return
    closed |-> FALSE ]

Running(s)   == s.started \ s.ended
RunningB(s)  == Running(s) \ s.nbs
\* Jobs that a pool may still count as unfinished.
Unfinished(s) == s.called \ (s.settled \cup s.failed)
\* Blocking submissions that have not been served completely.
PendingB(s) == { j \in s.called \ (s.nbs \cup s.failed) : j \notin s.started \/ j \notin s.ret }
PendingNB(s) == { j \in s.nbs \ s.failed : j \notin s.started \/ j \notin s.ret }
AtCapacity(s) == IF s.kind = "limited" THEN Cardinality(RunningB(s)) >= s.size
                                       ELSE Cardinality(Running(s)) >= s.size
If(c, v) == IF c THEN {v} ELSE {}

Base(s, e) ==
  CASE e.k = "sub" -> {}
    [] e.k = "subret" -> If(~e.ok /\ ~e.x, <<"C01", "a valid Submit returned an error">>)
    [] e.k = "start" ->
         If(e.j \notin s.called, <<"C01", "a job runs that was never submitted">>)
         \cup If(e.j \in s.started, <<"C01", "a job runs twice">>)
         \cup If(e.j \in s.failed, <<"C04", "a rejected job runs">>)
         \cup If(~e.c, <<"C01", "a job runs with another context">>)
         \cup If(s.closed, <<"C01", "a job runs after Close">>)
         \cup If(e.j \notin s.nbs /\ Cardinality(RunningB(s)) >= s.size,
                 <<"C02", "more blocking jobs run than the size of the pool">>)
    [] e.k = "end" -> {}
    [] e.k = "octx" -> {<<"C01", "a job runs with a context that is not cancelled when its own is">>}
    [] e.k = "bad" -> {}
    [] e.k = "badret" -> If(e.ok, <<"C04", "an invalid Submit returned no error">>)
    [] e.k = "badrun" -> {<<"C04", "an invalid Submit ran something">>}
    [] e.k = "wait" -> {}
    [] e.k = "waitret" ->
         LET w == s.waits[e.w] IN
           If(~(w.need \subseteq s.ended), <<"C01", "Wait or Close returned before a job had finished">>)
           \cup If(w.alone /\ s.called \subseteq (s.ended \cup s.failed) /\ e.r # 0, <<"C05", "Running is not 0 after Wait or Close">>)
    [] e.k = "run" -> {}
    [] e.k = "runret" ->
         If(e.v < s.runs[e.i].lo, <<"C05", "Running is below the number of executing jobs">>)
         \cup If(e.v > s.runs[e.i].hi, <<"C05", "Running is above the number of unfinished jobs">>)
    [] e.k = "len" -> If(e.v # s.size, <<"C05", "Len is not the size of the pool">>)
    [] e.k = "q" ->
         If(PendingNB(s) # {}, <<"C03", "a non-blocking submission waits">>)
         \cup If(PendingNB(s) # {} /\ PendingNB(s) \ s.started # {}, <<"C01", "a submitted job does not run">>)
         \cup If(PendingB(s) # {} /\ ~AtCapacity(s), <<"C02", "a submission waits although there is capacity">>)
         \cup If(PendingB(s) \cap s.started # {}, <<"C02", "Submit waits although its job has started">>)
         \cup If(PendingB(s) # {} /\ Running(s) = {}, <<"C01", "a submitted job does not run">>)
         \cup If(\E w \in DOMAIN s.waits : s.called \subseteq (s.ended \cup s.failed),
                 <<"C01", "Wait or Close does not return">>)
         \cup If(s.bads # {}, <<"C04", "an invalid Submit does not return">>)
         \cup If(DOMAIN s.runs # {}, <<"C05", "Running does not return">>)
         \cup If(e.r < Cardinality(Running(s)), <<"C05", "Running is below the number of executing jobs">>)
         \cup If(e.r > Cardinality(s.called \ (s.ended \cup s.failed)), <<"C05", "Running is above the number of unfinished jobs">>)
         \cup If(e.l # s.size, <<"C05", "Len is not the size of the pool">>)
    [] e.k = "leak" -> If(s.closed /\ e.n > 0, <<"C01", "goroutines are left over after Close">>)
    [] e.k \in {"crash", "race", "hang", "stuck"} ->
         { <<p, "the pool crashes, races or hangs">> : p \in {"C01", "C02", "C03", "C05"} }
    [] OTHER -> {<<"MODEL", "unknown event">>}

\* After a rejected call, everything must be as if it had not been made.
Viol(s, e) == LET b == Base(s, e) IN
   b \cup IF s.nbad > 0 /\ b # {} THEN {<<"C04", "after a rejected call the pool misbehaves">>} ELSE {}

Bounds(s) ==   \* a call of Running may return anything that was true at some moment during it
  [ s EXCEPT !.runs = [ i \in DOMAIN s.runs |->
      LET lo == Cardinality(Running(s))
          hi == Cardinality(Unfinished(s))
          r == s.runs[i] IN
      [ lo |-> IF r.lo < lo THEN r.lo ELSE lo, hi |-> IF r.hi > hi THEN r.hi ELSE hi ] ] ]

Eff0(s, e) ==
  CASE e.k = "sub" ->
         [ s EXCEPT !.called = @ \cup {e.j}, !.nbs = IF e.nb THEN @ \cup {e.j} ELSE @,
                    !.waits = [ w \in DOMAIN @ |-> [ @[w] EXCEPT !.alone = FALSE ] ] ]
    [] e.k = "subret" -> IF e.ok THEN [ s EXCEPT !.ret = @ \cup {e.j} ] ELSE [ s EXCEPT !.failed = @ \cup {e.j} ]
    [] e.k = "start" -> [ s EXCEPT !.started = @ \cup {e.j} ]
    [] e.k = "end" -> [ s EXCEPT !.ended = @ \cup {e.j} ]
    [] e.k = "bad" -> [ s EXCEPT !.bads = @ \cup {e.b}, !.nbad = 1 ]
    [] e.k = "badret" -> [ s EXCEPT !.bads = @ \ {e.b} ]
    [] e.k = "wait" -> [ s EXCEPT !.waits = Put(@, e.w, [ need |-> s.ret, alone |-> s.called = s.ret \cup s.failed ]) ]
    [] e.k = "waitret" -> [ s EXCEPT !.waits = Drop(@, e.w), !.closed = @ \/ e.cl ]
    [] e.k = "run" -> [ s EXCEPT !.runs = Put(@, e.i, [ lo |-> Cardinality(Running(s)), hi |-> Cardinality(Unfinished(s)) ]) ]
    [] e.k = "runret" -> [ s EXCEPT !.runs = Drop(@, e.i) ]
    [] e.k = "q" -> [ s EXCEPT !.settled = s.ended ]
    [] OTHER -> s

Eff(s, e) == LET t == Eff0(s, e) IN IF DOMAIN t.runs = {} THEN t ELSE Bounds(t)
=============================================================================

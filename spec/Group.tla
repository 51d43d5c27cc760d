-------------------------------- MODULE Group --------------------------------
(***************************************************************************)
(* Contract of wait.Group (prim/wait), for any number of groups that may    *)
(* share a pool.  Functions, contexts and errors are numbered.  Events:     *)
(*   round g c      the cancel function of group g is set: it cancels the   *)
(*                  context c (0: it has none)                              *)
(*   go g f c nb    Go is called with function f and context c              *)
(*   goret g f      that call returns                                       *)
(*   start g f k    f begins (k: with its own context)                      *)
(*   end g f e      f returns error e (0: nil, -1 and -2: the plain errors  *)
(*                  of cancelled contexts)                                  *)
(*   octx f         at quiescence the context of the running function f is  *)
(*                  cancelled and its own is not, or the other way around   *)
(*   cancel c / cancelled c   context c is about to be / has been cancelled *)
(*   cf g           the cancel function of group g is called                *)
(*   wait g / waitret g es ctx ok z r   Wait is called / returns: es are    *)
(*                  the errors found in the result, ctx: it has a plain     *)
(*                  context error, ok: it is nil, z: the cancel function is *)
(*                  cleared, r: what Running returned next                  *)
(*   run i g / runret i v    Running is called / returned v                 *)
(*   q rs           quiescence, Running of group g is rs[g]                 *)
(*   leak n         n goroutines are left over at the end                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Empty        == [x \in {} |-> 0]
If(c, v)     == IF c THEN {v} ELSE {}
Range(q)     == { q[x] : x \in DOMAIN q }

Fresh == [ fs |-> {}, nb |-> {}, ctx |-> Empty, ret |-> {}, started |-> {}, ended |-> {}, err |-> Empty,
           must |-> {},      \* may not start any more
           settled |-> {},   \* ended before the last quiescence
           cfn |-> 0, called |-> FALSE, waiting |-> FALSE,
           early |-> FALSE,  \* a failure was recorded before every plain context error
           old |-> FALSE ]   \* there was an earlier round

\* cfg: groups, pool (none, limited, pooled), size
InitState(cfg) ==
  [ g |-> [ x \in 1..cfg.groups |-> Fresh ], pool |-> cfg.pool, size |-> cfg.size,
    cc |-> {}, cd |-> {},     \* contexts that are being / have been cancelled
    past |-> {},              \* functions of earlier rounds
    errs |-> {},              \* errors returned in earlier rounds
    runs |-> Empty ]

Executing(s, g) == s.g[g].started \ s.g[g].ended
ExecAll(s) == UNION { Executing(s, g) : g \in DOMAIN s.g }
Blocking(s) == UNION { Executing(s, g) \ s.g[g].nb : g \in DOMAIN s.g }
Capacity(s, nb) == \/ s.pool = "none" \/ nb
                   \/ s.pool = "limited" /\ Cardinality(Blocking(s)) < s.size
                   \/ s.pool = "pooled" /\ Cardinality(ExecAll(s)) < s.size
Skippable(s, g) == { f \in s.g[g].fs \ s.g[g].started : s.g[g].ctx[f] \in s.cc }
Failures(s, g) == { s.g[g].err[f] : f \in DOMAIN s.g[g].err } \ {0}
Plain == {-1, -2}

Viol(s, e) ==
  CASE e.k \in {"round", "go", "goret", "cancel", "cancelled", "wait", "run"} -> {}
    [] e.k = "start" ->
         LET r == s.g[e.g] IN
           If(e.f \notin r.fs /\ e.f \notin s.past, <<"C10", "a function runs that was not passed to Go">>)
           \cup If(e.f \in s.past, <<"C10", "a function starts after Wait has returned">>)
           \cup If(e.f \in r.started, <<"C10", "a function runs twice">>)
           \cup If(~e.c, <<"C10", "a function runs with another context">>)
           \cup If(e.f \in r.must, <<"C10", "a function runs although its context was cancelled before">>)
           \cup If(e.f \in r.must /\ r.called /\ r.ctx[e.f] = r.cfn, <<"C12", "a function starts after the group was cancelled">>)
    [] e.k = "end" -> {}
    [] e.k = "octx" -> {<<"C10", "a function runs with a context that is not cancelled when its own is">>}
    [] e.k = "cf" ->
         LET r == s.g[e.g] IN
           If(r.fs = {} /\ ~r.waiting, <<"C13", "the cancel function is called after Wait">>)
           \cup If(/\ Failures(s, e.g) = {} /\ Skippable(s, e.g) = {}
                   /\ ~(r.waiting /\ r.fs = r.ended), <<"C12", "the group is cancelled without an error">>)
    [] e.k = "waitret" ->
         LET r == s.g[e.g]
             fail == Failures(s, e.g)
             skipped == r.fs \ r.started
             found == Range(e.es) IN
           If(Executing(s, e.g) # {}, <<"C10", "Wait returned before a function had finished">>)
           \cup If(\E f \in skipped : r.ctx[f] \notin s.cc, <<"C10", "Wait returned and a function was not executed">>)
           \cup If(e.ok /\ (fail # {} \/ skipped # {}), <<"C11", "Wait returned nil although there were failures">>)
           \cup If(~e.ok /\ fail = {} /\ skipped = {}, <<"C11", "Wait returned an error although there was none">>)
           \cup If(~(fail \ Plain \subseteq found), <<"C11", "Wait lost an error">>)
           \cup If(~(found \subseteq fail) /\ found \ fail \subseteq s.errs, <<"C13", "Wait returned an error of an earlier round">>)
           \cup If(~e.ok /\ fail = {} /\ skipped = {} /\ r.old, <<"C13", "Wait returned an error of an earlier round">>)
           \cup If(~(found \subseteq fail \cup s.errs), <<"C11", "Wait returned an error that did not happen">>)
           \cup If(e.ctx /\ fail \cap Plain = {} /\ skipped = {}, <<"C11", "Wait returned a context error that did not happen">>)
           \cup If(e.ctx /\ r.early, <<"C11", "Wait returned a context error that was not the first failure">>)
           \cup If(r.cfn # 0 /\ ~r.called, <<"C12", "Wait returned and the cancel function was not called">>)
           \cup If(~e.z, <<"C13", "the cancel function is still set after Wait">>)
           \cup If(e.r # 0, <<"C13", "Running is not 0 after Wait">>)
    [] e.k = "runret" ->
         If(e.v < s.runs[e.i].lo, <<"C13", "Running is below the number of executing functions">>)
         \cup If(e.v > s.runs[e.i].hi, <<"C13", "Running is above the number of unfinished functions">>)
    [] e.k = "q" ->
         UNION { LET r == s.g[g]
                     pend == r.fs \ r.started
                     sk == Skippable(s, g)
                     cap == Capacity(s, FALSE) IN
           If(\E f \in pend \ sk : Capacity(s, f \in r.nb), <<"C10", "a function is not executed">>)
           \cup If(\E f \in r.fs \ r.ret : f \in r.started \/ Capacity(s, f \in r.nb), <<"C10", "Go does not return">>)
           \cup If(r.waiting /\ \A f \in r.fs : f \in r.ended \/ (f \in sk /\ (cap \/ f \in r.nb)), <<"C10", "Wait does not return">>)
           \cup If(r.cfn # 0 /\ ~r.called /\ Failures(s, g) # {}, <<"C12", "the group is not cancelled although a function failed">>)
           \cup If(e.rs[g] < Cardinality(Executing(s, g)), <<"C13", "Running is below the number of executing functions">>)
           \cup If(e.rs[g] > Cardinality(r.fs \ r.ended), <<"C13", "Running is above the number of unfinished functions">>)
           : g \in DOMAIN s.g }
         \cup If(DOMAIN s.runs # {}, <<"C13", "Running does not return">>)
    [] e.k = "leak" -> If(e.n > 0, <<"C10", "goroutines are left over">>)
    [] e.k \in {"crash", "race", "hang", "stuck"} ->
         { <<p, "the group crashes, races or hangs">> : p \in {"C10", "C11", "C12", "C13"} }
    [] OTHER -> {<<"MODEL", "unknown event">>}

Eff0(s, e) ==
  CASE e.k = "round" -> [ s EXCEPT !.g[e.g].cfn = e.c ]
    [] e.k = "go" -> [ s EXCEPT !.g[e.g] = [ @ EXCEPT !.fs = @ \cup {e.f}, !.ctx = Put(@, e.f, e.c),
                                             !.nb = IF e.nb THEN @ \cup {e.f} ELSE @,
                                             !.must = IF e.c \in s.cd THEN @ \cup {e.f} ELSE @ ] ]
    [] e.k = "goret" -> [ s EXCEPT !.g[e.g].ret = @ \cup {e.f} ]
    [] e.k = "start" -> [ s EXCEPT !.g[e.g].started = @ \cup {e.f} ]
    [] e.k = "end" -> [ s EXCEPT !.g[e.g].ended = @ \cup {e.f}, !.g[e.g].err = Put(@, e.f, e.e) ]
    [] e.k = "cancel" -> [ s EXCEPT !.cc = @ \cup {e.c} ]
    [] e.k = "cancelled" -> [ s EXCEPT !.cd = @ \cup {e.c} ]
    [] e.k = "cf" -> [ s EXCEPT !.g[e.g].called = TRUE ]
    [] e.k = "wait" -> [ s EXCEPT !.g[e.g].waiting = TRUE ]
    [] e.k = "waitret" -> [ s EXCEPT !.past = @ \cup s.g[e.g].fs, !.errs = @ \cup Failures(s, e.g),
                                     !.g[e.g] = [ Fresh EXCEPT !.old = TRUE ] ]
    [] e.k = "run" -> [ s EXCEPT !.runs = Put(@, e.i, [ g |-> e.g, lo |-> Cardinality(Executing(s, e.g)),
                                                        hi |-> Cardinality(s.g[e.g].fs \ s.g[e.g].settled) ]) ]
    [] e.k = "runret" -> [ s EXCEPT !.runs = Drop(@, e.i) ]
    [] e.k = "q" -> [ s EXCEPT !.g = [ g \in DOMAIN @ |->
                        LET r == @[g] IN
                        [ r EXCEPT !.settled = r.ended,
                                   !.must = @ \cup { f \in r.fs \ r.started : r.ctx[f] \in s.cd },
                                   !.early = @ \/ (Failures(s, g) # {} /\ Failures(s, g) \cap Plain = {} /\ Skippable(s, g) = {}) ] ] ]
    [] OTHER -> s

Bounds(s) ==
  [ s EXCEPT !.runs = [ i \in DOMAIN s.runs |->
      LET r == s.runs[i]
          lo == Cardinality(Executing(s, r.g))
          hi == Cardinality(s.g[r.g].fs \ s.g[r.g].settled) IN
      [ g |-> r.g, lo |-> IF r.lo < lo THEN r.lo ELSE lo, hi |-> IF r.hi > hi THEN r.hi ELSE hi ] ] ]
Eff(s, e) == LET t == Eff0(s, e) IN IF DOMAIN t.runs = {} THEN t ELSE Bounds(t)
=============================================================================

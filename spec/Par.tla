--------------------------------- MODULE Par ---------------------------------
(***************************************************************************)
(* Contract of one parallel operation: slices.Access ("slice"),             *)
(* chans.Access ("access") or chans.Modify ("modify").  Elements are        *)
(* numbered; the element i of a slice has the value 10 * i at the           *)
(* beginning; the values sent to channels are their own numbers.  Events:   *)
(*   call / ret es ok vals   the operation is called / returns: es are the  *)
(*                  errors found in its result, ok: it is nil, vals: the    *)
(*                  slice directly afterwards                               *)
(*   start i v k    the function is called with element i, value v, k: with *)
(*                  a context derived from the caller's                     *)
(*   set i v        it calls the setter with v                              *)
(*   end i e        it returns error e (0: nil, -1: a plain context error)  *)
(*   send v / sent v   a value is about to be sent / was sent to the input  *)
(*   close          the input is closed                                     *)
(*   recv v e       a result was received: of value v (e = 0), error e, or  *)
(*                  a plain context error (-1)                              *)
(*   outclosed      a receiver found the output closed                      *)
(*   cancel / cancelled   the caller's context is about to be / was         *)
(*                  cancelled                                               *)
(*   ob o / oe o    a job of somebody else begins / ends on the pool        *)
(*   js / je        a job of the operation begins / ends on the pool        *)
(*   q live dead r rp   quiescence: live and dead are the executing calls   *)
(*                  whose context is not / is cancelled, r what the pool's  *)
(*                  Running returns, rp the number of waiting receivers     *)
(*   vals v         the slice long after the operation                      *)
(*   opts n m       n is how often a submit option was used for m calls     *)
(*   poolok b       after the operation the pool is open and works          *)
(*   leak n         n goroutines are left over                              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty        == [x \in {} |-> 0]
If(c, v)     == IF c THEN {v} ELSE {}
Range(q)     == { q[x] : x \in DOMAIN q }
Max(a, b)    == IF a > b THEN a ELSE b

\* cfg: op, n (elements of the slice), pool (none, limited, pooled), size, nb (the options say
\* NonBlocking), stop, cpus, ocap (capacity of the output), spy (js and je are recorded)
InitState(cfg) ==
  [ op |-> cfg.op, n |-> cfg.n, pool |-> cfg.pool, size |-> cfg.size, nb |-> cfg.nb, stop |-> cfg.stop,
    cpus |-> cfg.cpus, ocap |-> cfg.ocap, spy |-> cfg.spy,
    called |-> FALSE, ret |-> FALSE, ok |-> FALSE,
    started |-> {}, ended |-> {}, err |-> Empty, val |-> [ i \in 1..cfg.n |-> 10 * i ],
    send |-> {}, sent |-> {}, closed |-> FALSE,
    got |-> {},      \* values whose result (or error) was received
    plains |-> 0,    \* plain context errors received
    outclosed |-> FALSE, shut |-> FALSE,   \* shut: and all receivers have recorded what they had received
    cc |-> FALSE, cd |-> FALSE, bar |-> FALSE,   \* bar: no call may start any more
    occ |-> {}, jobs |-> 0 ]

Prop(s) == CASE s.op = "slice" -> "C14" [] s.op = "access" -> "C15" [] OTHER -> "C16"
Elems(s) == IF s.op = "slice" THEN 1..s.n ELSE s.send
Due(s)   == IF s.op = "slice" THEN 1..s.n ELSE s.sent
Executing(s) == s.started \ s.ended
Fails(s)  == { s.err[i] : i \in DOMAIN s.err } \ {0, -1}
PlainEnds(s) == Cardinality({ i \in DOMAIN s.err : s.err[i] = -1 })
\* Calls of Modify whose result has not been received (plain errors cannot be told apart).
Unresolved(s) == IF s.op # "modify" THEN {}
                 ELSE { i \in s.ended : s.err[i] # -1 /\ i \notin s.got }
UnresPlain(s) == IF s.op # "modify" THEN 0 ELSE PlainEnds(s) - s.plains
Busy(s) == Cardinality(Executing(s)) + Cardinality(Unresolved(s)) + UnresPlain(s)
Capacity(s) == CASE s.pool = "none" -> Busy(s) = 0
                 [] s.nb -> TRUE
                 [] OTHER -> Busy(s) + Cardinality(s.occ) < s.size
\* An error has stopped the operation, at the latest when the next quiescence is reached.
Failed(s) == s.stop /\ IF s.op = "modify" THEN \E i \in s.got : s.err[i] # 0 ELSE Fails(s) # {}
Halted(s) == s.cc \/ (s.stop /\ \E i \in DOMAIN s.err : s.err[i] # 0)   \* something may have been left out
\* Nothing has cancelled the calls of Modify so far.
Going(s)  == ~s.cc /\ (~s.stop \/ (s.plains = 0 /\ ~Failed(s) /\ (s.ocap = 0 \/ \A i \in DOMAIN s.err : s.err[i] = 0)))
Halt(s)   == s.cd \/ Failed(s)

RetViol(s, e) ==
  LET p == Prop(s)
      found == Range(e.es) IN
  If(Executing(s) # {}, <<p, "the operation returned while a call was running">>)
  \cup If(~Halted(s) /\ ~(Due(s) \subseteq s.ended), <<p, "the operation returned and an element was not processed">>)
  \cup If(s.op # "slice" /\ ~Halted(s) /\ ~s.closed, <<p, "the operation returned before the input was closed">>)
  \cup If(e.ok /\ ~(Due(s) \subseteq s.ended), <<"C17", "the operation returned nil and an element was not processed">>)
  \cup If(e.ok /\ s.op # "slice" /\ ~s.closed, <<"C17", "the operation returned nil before the input was closed">>)
  \cup If(~(Fails(s) \subseteq found), <<"C17", "an error of a call was lost">>)
  \cup If(e.ok /\ Fails(s) # {}, <<"C17", "an error of a call was lost">>)
  \cup If(~(found \subseteq Fails(s)), <<"C17", "the operation returned an error that did not happen">>)
  \cup If(~e.ok /\ Fails(s) = {} /\ PlainEnds(s) = 0 /\ ~s.cc, <<"C17", "the operation returned an error that did not happen">>)
  \cup If(s.n = 0 /\ s.op = "slice" /\ ~e.ok, <<"C14", "an empty slice caused an error">>)
  \cup If(s.op = "slice" /\ e.vals # s.val, <<"C14", "the slice does not hold the values that were set">>)

Viol(s, e) ==
  LET p == Prop(s) IN
  CASE e.k \in {"call", "set", "send", "sent", "close", "cancel", "cancelled", "ob", "oe", "js", "je"} -> {}
    [] e.k = "start" ->
         If(e.i \notin Elems(s), <<p, "a call for an element that does not exist">>)
         \cup If(e.i \in s.started, <<p, "an element is processed twice">>)
         \cup If(s.ret, <<p, "a call starts after the operation has returned">>)
         \cup If(s.op = "slice" /\ e.i \in 1..s.n /\ e.v # s.val[e.i], <<"C14", "a call gets a wrong value">>)
         \cup If(~e.c, <<"C17", "a call gets a context that is not derived from the caller's">>)
         \cup If(s.bar, <<"C17", "a call starts after cancellation or stop-on-error">>)
         \cup If(s.pool # "none" /\ ~s.nb /\ Cardinality(Executing(s)) + Cardinality(s.occ) >= s.size,
                 <<"C18", "more calls run than the supplied pool allows">>)
         \cup If(s.pool = "none" /\ Cardinality(Executing(s)) >= s.cpus, <<"C18", "more calls run than there are CPUs">>)
         \cup If(s.spy /\ Cardinality(Executing(s)) >= s.jobs, <<"C18", "a call does not run on the supplied pool">>)
    [] e.k = "end" -> {}
    [] e.k = "recv" ->
         If(e.e >= 0 /\ (e.v \notin s.ended \/ s.err[e.v] # e.e), <<"C16", "a result that no call produced">>)
         \cup If(e.e >= 0 /\ e.v \in s.got, <<"C16", "a result is duplicated">>)
         \cup If(e.e < 0 /\ UnresPlain(s) = 0, <<"C16", "a result that no call produced">>)
         \cup If(s.shut, <<"C16", "a result after the output was closed">>)
    [] e.k = "outclosed" ->
         If(Executing(s) # {}, <<"C16", "the output is closed while a call is running">>)
         \cup If(~Halted(s) /\ (~s.closed \/ ~(s.sent \subseteq s.ended)), <<"C16", "the output is closed and a result is missing">>)
    [] e.k = "ret" -> RetViol(s, e)
    [] e.k = "q" ->
         LET pend == Due(s) \ s.started
             active == s.called /\ ~s.ret IN
         If(active /\ ~Halted(s) /\ Capacity(s) /\ (pend # {} \/ (s.op # "slice" /\ s.send \ s.sent # {})),
            <<p, "an element is not processed">>)
         \cup If(active /\ ~Halted(s) /\ s.pool # "none" /\ Capacity(s) /\ (pend # {} \/ (s.op # "slice" /\ s.send \ s.sent # {})),
            <<"C18", "an element is not processed although the supplied pool has capacity">>)
         \cup If(active /\ Executing(s) = {} /\
                 CASE s.op = "slice" -> Due(s) \subseteq s.ended
                   [] s.op = "access" -> s.closed /\ s.sent \subseteq s.ended
                   [] OTHER -> s.closed /\ s.sent \subseteq s.ended /\ Busy(s) = 0,
                 <<p, "the operation does not return">>)
         \cup If(active /\ Halt(s) /\ Executing(s) = {} /\ (s.pool = "none" \/ s.nb \/ Cardinality(s.occ) < s.size),
                 <<p, "the operation does not return after cancellation or stop-on-error">>)
         \cup If(s.op = "modify" /\ active /\ Going(s) /\ e.rp > 0 /\ Busy(s) > Cardinality(Executing(s)), <<"C16", "a result is not delivered">>)
         \cup If(s.outclosed /\ ~Halted(s) /\ Busy(s) # 0, <<"C16", "the output is closed and a result is missing">>)
         \cup If(s.op = "modify" /\ s.ret /\ e.rp > 0 /\ ~s.outclosed, <<"C16", "the output is not closed">>)
         \cup If(s.op = "modify" /\ s.ret /\ s.ok /\ s.outclosed /\ Busy(s) # 0, <<"C16", "the operation returned nil and a result was dropped">>)
         \cup If(Failed(s) /\ Range(e.live) # {}, <<"C17", "the calls in progress are not cancelled on an error">>)
         \cup If(s.cd /\ Range(e.live) # {}, <<"C17", "the calls in progress are not cancelled with the caller's context">>)
         \cup If(~Halted(s) /\ Range(e.dead) # {}, <<"C17", "calls are cancelled without a reason">>)
         \cup If(e.r >= 0 /\ e.r < Cardinality(Executing(s)), <<"C18", "the supplied pool does not count the calls">>)
    [] e.k = "vals" -> If(e.v # s.val, <<"C14", "the slice is changed after the operation">>)
    [] e.k = "opts" -> If(e.n < e.m, <<"C18", "calls run without the submit options">>)
    [] e.k = "poolok" -> If(~e.b, <<"C18", "the supplied pool does not work any more">>)
    [] e.k = "leak" -> If(e.n > 0, <<p, "goroutines are left over">>)
                       \cup If(e.n > 0, <<"C18", "goroutines are left over">>)
    [] e.k \in {"crash", "race", "hang", "stuck"} ->
         { <<x, "the operation crashes, races or hangs">> : x \in {p, "C17", "C18"} }
    [] OTHER -> {<<"MODEL", "unknown event">>}

Eff(s, e) ==
  CASE e.k = "call" -> [ s EXCEPT !.called = TRUE, !.bar = @ \/ s.cd ]
    [] e.k = "start" -> [ s EXCEPT !.started = @ \cup {e.i} ]
    [] e.k = "set" -> [ s EXCEPT !.val = IF e.i \in DOMAIN @ THEN [ @ EXCEPT ![e.i] = e.v ] ELSE @ ]
    [] e.k = "end" -> [ s EXCEPT !.ended = @ \cup {e.i}, !.err = Put(@, e.i, e.e) ]
    [] e.k = "send" -> [ s EXCEPT !.send = @ \cup {e.v} ]
    [] e.k = "sent" -> [ s EXCEPT !.sent = @ \cup {e.v} ]
    [] e.k = "close" -> [ s EXCEPT !.closed = TRUE ]
    [] e.k = "recv" -> IF e.e >= 0 THEN [ s EXCEPT !.got = @ \cup ({e.v} \cap s.ended) ] ELSE [ s EXCEPT !.plains = @ + 1 ]
    [] e.k = "outclosed" -> [ s EXCEPT !.outclosed = TRUE ]
    [] e.k = "cancel" -> [ s EXCEPT !.cc = TRUE ]
    [] e.k = "cancelled" -> [ s EXCEPT !.cd = TRUE ]
    [] e.k = "ob" -> [ s EXCEPT !.occ = @ \cup {e.o} ]
    [] e.k = "oe" -> [ s EXCEPT !.occ = @ \ {e.o} ]
    [] e.k = "js" -> [ s EXCEPT !.jobs = @ + 1 ]
    [] e.k = "je" -> [ s EXCEPT !.jobs = @ - 1 ]
    [] e.k = "ret" -> [ s EXCEPT !.ret = TRUE, !.ok = e.ok ]
    [] e.k = "q" -> [ s EXCEPT !.bar = @ \/ Halt(s), !.shut = s.outclosed ]
    [] OTHER -> s
=============================================================================

---------------------------------- MODULE RW ----------------------------------
(***************************************************************************)
(* Contract of atomics.RWValue.  Values are numbered (0: the zero value).   *)
(* Linearizability is decided by carrying the set "poss" of all abstract    *)
(* states the value may be in, given the history.  Events:                  *)
(*   ld i / ldret i v     Load is called / returned v (-1: a torn value)    *)
(*   st i v / stret i     Store(v) is called / returned                     *)
(*   lr i / lrret i e     LoadReplace is called / returned error e (0: nil) *)
(*   fs i v               its function is called with value v               *)
(*   fe i n e p           the function returns value n and error e or       *)
(*                        panics (p)                                        *)
(*   lrpanic i            LoadReplace panicked                              *)
(*   q                    quiescence                                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Empty        == [x \in {} |-> 0]
If(c, v)     == IF c THEN {v} ELSE {}

\* ops: the pending operations: k (ld, st, lr), v (value to be written), ph (called, running, ran), e, p
\* poss: the possible states: cur, h (the LoadReplace that excludes other writers), lin: the
\*       operations that have taken effect, with what they have read
InitState(cfg) == [ ops |-> Empty, poss |-> {[cur |-> 0, h |-> 0, lin |-> {}]}, lost |-> FALSE ]

Linearized(c) == { p[1] : p \in c.lin }
\* The states that c may turn into by one pending operation taking effect.
Next1(s, c) ==
  UNION { LET o == s.ops[i] IN
          CASE o.k = "ld" -> {[c EXCEPT !.lin = @ \cup {<<i, c.cur>>}]}
            [] o.k = "st" /\ c.h = 0 -> {[c EXCEPT !.cur = o.v, !.lin = @ \cup {<<i, 0>>}]}
            [] o.k = "lr" /\ o.ph = "ran" /\ c.h = i ->
                 {[cur |-> IF o.e = 0 /\ ~o.p THEN o.v ELSE c.cur, h |-> 0, lin |-> c.lin \cup {<<i, 0>>}]}
            [] OTHER -> {}
          : i \in DOMAIN s.ops \ Linearized(c) }
RECURSIVE Grow(_, _, _)
Grow(s, all, new) == LET n == UNION { Next1(s, c) : c \in new } \ all IN
                     IF n = {} THEN all ELSE Grow(s, all \cup n, n)
Closure(s) == Grow(s, s.poss, s.poss)

\* Operation i returns having read v: the possible states afterwards.
Returned(s, i, v) == { [c EXCEPT !.lin = @ \ {<<i, v>>}] : c \in { d \in Closure(s) : <<i, v>> \in d.lin } }
\* The function of i is called with v.
Entered(s, i, v) == { [c EXCEPT !.h = i] : c \in { d \in Closure(s) : d.cur = v /\ d.h = 0 } }

RunningF(s) == { i \in DOMAIN s.ops : s.ops[i].ph = "running" }

Viol(s, e) ==
  CASE e.k \in {"ld", "st", "lr", "fe"} -> {}
    [] e.k = "ldret" -> If(e.v < 0, <<"C08", "Load returned a value that was never written">>)
                        \cup If(~s.lost /\ Returned(s, e.i, e.v) = {}, <<"C08", "the value that Load returned was not the latest">>)
                        \cup If(~s.lost /\ Returned(s, e.i, e.v) = {} /\ RunningF(s) # {}, <<"C09", "Load did not return the last completed value">>)
    [] e.k = "stret" -> If(~s.lost /\ Returned(s, e.i, 0) = {}, <<"C08", "a Store took effect within a LoadReplace">>)
                        \cup If(~s.lost /\ Returned(s, e.i, 0) = {}, <<"C09", "a Store did not wait for another writer">>)
    [] e.k = "fs" -> If(s.ops[e.i].ph # "called", <<"C08", "LoadReplace called its function twice">>)
                     \cup If(RunningF(s) # {}, <<"C09", "two LoadReplace functions run at once">>)
                     \cup If(~s.lost /\ Entered(s, e.i, e.v) = {}, <<"C08", "LoadReplace did not pass the current value">>)
    [] e.k = "lrret" -> LET o == s.ops[e.i] IN
                        If(o.ph # "ran", <<"C08", "LoadReplace returned without its function having run">>)
                        \cup If(o.ph = "ran" /\ (o.p \/ o.e # e.e), <<"C08", "LoadReplace did not return the error of its function">>)
                        \cup If(~s.lost /\ Returned(s, e.i, 0) = {}, <<"C08", "LoadReplace did not take effect">>)
    [] e.k = "lrpanic" -> If(~s.ops[e.i].p, <<"C08", "LoadReplace panicked">>)
    [] e.k = "q" ->
         If(\E i \in DOMAIN s.ops : s.ops[i].k = "ld", <<"C09", "Load waits">>)
         \cup If(RunningF(s) = {} /\ \E i \in DOMAIN s.ops : s.ops[i].k # "ld", <<"C09", "a writer waits although no other writer is active">>)
    [] e.k \in {"crash", "race", "hang", "stuck"} -> { <<p, "the value crashes, races or hangs">> : p \in {"C08", "C09"} }
    [] OTHER -> {<<"MODEL", "unknown event">>}

\* After a violation the history cannot be explained any more: it is not judged further.
Poss(s, p) == IF p = {} THEN [s EXCEPT !.lost = TRUE, !.poss = {}] ELSE [s EXCEPT !.poss = p]
New(s, i, k, v) == [ s EXCEPT !.ops = Put(@, i, [k |-> k, v |-> v, ph |-> "called", e |-> 0, p |-> FALSE]) ]
Gone(s, i, p) == [ Poss(s, p) EXCEPT !.ops = Drop(@, i) ]
Eff(s, e) ==
  CASE e.k = "ld" -> New(s, e.i, "ld", 0)
    [] e.k = "st" -> New(s, e.i, "st", e.v)
    [] e.k = "lr" -> New(s, e.i, "lr", 0)
    [] e.k = "fs" -> [ Poss(s, Entered(s, e.i, e.v)) EXCEPT !.ops[e.i].ph = "running" ]
    [] e.k = "fe" -> [ s EXCEPT !.ops[e.i] = [@ EXCEPT !.ph = "ran", !.v = e.n, !.e = e.e, !.p = e.p] ]
    [] e.k = "ldret" -> Gone(s, e.i, Returned(s, e.i, e.v))
    [] e.k \in {"stret", "lrret", "lrpanic"} -> Gone(s, e.i, Returned(s, e.i, 0))
    [] OTHER -> s
=============================================================================

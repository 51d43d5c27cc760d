--------------------------------- MODULE Queue ---------------------------------
(***************************************************************************)
(* Contract of the internal queue: linearizable to a bounded FIFO.  With    *)
(* distinct values, and pushes that end before Close, linearizability is    *)
(* equivalent to four conditions that can be checked step by step: no value *)
(* out of thin air, no value twice, no value overtaken, no end of the queue *)
(* while values are left.  Events:                                          *)
(*   push v / pushret v      Push(v) is called / returned                   *)
(*   pop j / popret j ok v   Pop is called / returned                       *)
(*   close / closeret        Close                                          *)
(*   q                       quiescence                                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty        == [x \in {} |-> 0]
If(c, v)     == IF c THEN {v} ELSE {}

\* pushing, pushed, popped: values; before[v]: the values pushed before the push of v began;
\* only[v]: the pops that may still return v (for values that have to be popped already)
\* pops: pending pops; npop: number of pops called (minus those that returned the end)
InitState(cfg) == [ limit |-> cfg.limit, pushing |-> {}, pushed |-> {}, popped |-> {}, before |-> Empty, only |-> Empty,
                    pops |-> {}, npop |-> 0, closed |-> FALSE, closing |-> FALSE ]

Held(s) == s.pushed \ s.popped
\* The values of vs must have been taken by one of the pops pending now.
Bound(s, vs, ps) == [ v \in DOMAIN s.only \cup vs |-> IF v \in vs THEN (IF v \in DOMAIN s.only THEN s.only[v] \cap ps ELSE ps) ELSE s.only[v] ]

Viol(s, e) ==
  CASE e.k \in {"push", "pop", "close", "closeret"} -> {}
    [] e.k = "pushret" -> If(s.limit > 0 /\ Cardinality(s.pushed) + 1 - s.npop > s.limit, <<"C28", "more values are held than the limit allows">>)
    [] e.k = "popret" ->
         IF e.ok
         THEN If(e.v \notin s.pushed \cup s.pushing, <<"C28", "a value was popped that was not pushed">>)
              \cup If(e.v \in s.popped, <<"C28", "a value was popped twice">>)
              \cup If(e.v \notin s.popped /\ e.v \in DOMAIN s.only /\ e.j \notin s.only[e.v], <<"C28", "a value was overtaken or missed">>)
         ELSE If(~s.closing, <<"C28", "Pop reported the end of an open queue">>)
              \cup If(e.v # 0, <<"C28", "Pop returned a value together with the end">>)
              \cup If(Cardinality(Held(s)) > Cardinality(s.pops \ {e.j}), <<"C28", "Pop reported the end although values are left">>)
    [] e.k = "q" ->
         If(s.pops # {} /\ Held(s) # {}, <<"C28", "Pop waits although there is a value">>)
         \cup If(s.pops # {} /\ s.closed, <<"C28", "Pop waits although the queue is closed">>)
         \cup If(s.pushing # {} /\ (s.limit = 0 \/ Cardinality(Held(s)) < s.limit), <<"C28", "Push waits although there is room">>)
         \cup If(\E v \in Held(s) \cap DOMAIN s.only : s.only[v] \cap s.pops = {}, <<"C28", "a value was overtaken or missed">>)
         \cup If(s.closing /\ ~s.closed, <<"C28", "Close waits">>)
    [] e.k \in {"crash", "race", "hang", "stuck"} -> {<<"C28", "the queue crashes, races or hangs">>}
    [] OTHER -> {<<"MODEL", "unknown event">>}

Eff(s, e) ==
  CASE e.k = "push" -> [ s EXCEPT !.pushing = @ \cup {e.v}, !.before = Put(@, e.v, s.pushed) ]
    [] e.k = "pushret" -> [ s EXCEPT !.pushing = @ \ {e.v}, !.pushed = @ \cup {e.v} ]
    [] e.k = "pop" -> [ s EXCEPT !.pops = @ \cup {e.j}, !.npop = @ + 1 ]
    [] e.k = "popret" ->
         LET ps == s.pops \ {e.j} IN
         IF e.ok
         THEN [ s EXCEPT !.pops = ps, !.popped = @ \cup {e.v},
                         !.only = Bound(s, (IF e.v \in DOMAIN s.before THEN s.before[e.v] ELSE {}) \ s.popped, ps) ]
         ELSE [ s EXCEPT !.pops = ps, !.npop = @ - 1, !.only = Bound(s, Held(s), ps) ]
    [] e.k = "close" -> [ s EXCEPT !.closing = TRUE ]
    [] e.k = "closeret" -> [ s EXCEPT !.closed = TRUE ]
    [] OTHER -> s
=============================================================================

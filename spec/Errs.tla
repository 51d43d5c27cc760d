--------------------------------- MODULE Errs ---------------------------------
(***************************************************************************)
(* Contract of goroutines.Errors.  Errors are numbered in any order.        *)
(*   rec i / recret i       Record(i) is called / returned                  *)
(*   ls j / lsret j l       Errors is called / returned the list l          *)
(*   fst j / fstret j v     Error is called / returned v (0: nil)           *)
(*   again j l              the list returned by call j, looked at again    *)
(*   q                      quiescence                                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Empty        == [x \in {} |-> 0]
If(c, v)     == IF c THEN {v} ELSE {}
Range(q)     == { q[x] : x \in DOMAIN q }
Prefix(a, b) == Len(a) <= Len(b) /\ \A x \in DOMAIN a : a[x] = b[x]
Max(a, b)    == IF a > b THEN a ELSE b

\* known: the longest list seen; shown: the number of errors that a call beginning now must see at least
InitState(cfg) == [ called |-> {}, done |-> {}, before |-> Empty, known |-> <<>>, shown |-> 0,
                    calls |-> Empty, lists |-> Empty ]

\* before[i]: the errors recorded before the recording of i began
OrderOK(s, l) == \A x \in DOMAIN l : l[x] \in s.called =>
                   s.before[l[x]] \subseteq { l[y] : y \in 1..(x - 1) }

Viol(s, e) ==
  CASE e.k \in {"rec", "recret", "ls", "fst"} -> {}
    [] e.k = "lsret" ->
         LET c == s.calls[e.j] IN
         If(~(c.need \subseteq Range(e.l)), <<"C07", "an error is missing in the list">>)
         \cup If(~(Range(e.l) \subseteq s.called), <<"C07", "the list has an error that was not recorded">>)
         \cup If(Cardinality(Range(e.l)) # Len(e.l), <<"C07", "the list has an error twice">>)
         \cup If(~Prefix(e.l, s.known) /\ ~Prefix(s.known, e.l), <<"C07", "the order of the list has changed">>)
         \cup If(Len(e.l) < c.len, <<"C07", "the list has become shorter">>)
         \cup If(~OrderOK(s, e.l), <<"C07", "the list is not in the order of the recordings">>)
    [] e.k = "fstret" ->
         LET c == s.calls[e.j] IN
         If(e.v = 0 /\ (c.need # {} \/ c.len > 0), <<"C07", "Error returned nil although there are errors">>)
         \cup If(e.v # 0 /\ e.v \notin s.called, <<"C07", "Error returned an error that was not recorded">>)
         \cup If(e.v \in s.called /\ s.known # <<>> /\ e.v # s.known[1], <<"C07", "Error did not return the first error">>)
         \cup If(e.v \in s.called /\ s.before[e.v] # {}, <<"C07", "Error did not return the first error">>)
    [] e.k = "again" -> If(e.l # s.lists[e.j], <<"C07", "a list was altered after it was returned">>)
    [] e.k = "q" -> If(DOMAIN s.calls # {} \/ s.called # s.done, <<"C07", "a call does not return">>)
    [] e.k \in {"crash", "race", "hang", "stuck"} -> {<<"C07", "the collector crashes, races or hangs">>}
    [] OTHER -> {<<"MODEL", "unknown event">>}

Learn(s, l) == [ s EXCEPT !.known = IF Len(l) > Len(@) THEN l ELSE @, !.shown = Max(@, Len(l)) ]
Eff(s, e) ==
  CASE e.k = "rec" -> [ s EXCEPT !.called = @ \cup {e.i}, !.before = Put(@, e.i, s.done) ]
    [] e.k = "recret" -> [ s EXCEPT !.done = @ \cup {e.i} ]
    [] e.k \in {"ls", "fst"} -> [ s EXCEPT !.calls = Put(@, e.j, [need |-> s.done, len |-> s.shown]) ]
    [] e.k = "lsret" -> Learn([ s EXCEPT !.calls = Drop(@, e.j), !.lists = Put(@, e.j, e.l) ], e.l)
    [] e.k = "fstret" -> LET t == [ s EXCEPT !.calls = Drop(@, e.j) ] IN
                         IF e.v = 0 THEN t ELSE Learn(t, <<e.v>>)
    [] OTHER -> s
=============================================================================

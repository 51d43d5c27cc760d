--------------------------------- MODULE Skel ---------------------------------
(***************************************************************************)
(* Contract of the skeleton generator (stagedpipe-cli init) in one          *)
(* directory.  A package is named by the last element of its path.          *)
(*   pre b                  something named b is there already              *)
(*   init j b m             call j: package b ("": not given), m: with main *)
(*   initret j ok           call j has ended                                *)
(*   look files lost        the files that were added, and the number of    *)
(*                          earlier files that are gone or altered; a file  *)
(*                          is [r, b]: its role and its package             *)
(*   build ok               building a program that uses the packages       *)
(*   run b ok done items    running the program of package b                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Empty        == [x \in {} |-> 0]
If(c, v)     == IF c THEN {v} ELSE {}
Range(q)     == { q[x] : x \in DOMAIN q }

InitState(cfg) == [ taken |-> {}, calls |-> Empty, want |-> {} ]

Files(b, m) == {[r |-> "data", b |-> b], [r |-> "sm", b |-> b]} \cup If(m, [r |-> "main", b |-> ""])
Count(q, x) == Cardinality({ i \in DOMAIN q : q[i] = x })

Viol(s, e) ==
  CASE e.k \in {"pre", "init"} -> {}
    [] e.k = "initret" ->
         LET c == s.calls[e.j] IN
         If(e.ok /\ c.b = "", <<"C30", "a package is made although no path is given">>)
         \cup If(e.ok /\ c.b \in s.taken, <<"C30", "a package is made where something is already">>)
         \cup If(~e.ok /\ c.b # "" /\ c.b \notin s.taken /\ (\A j \in DOMAIN s.calls \ {e.j} : s.calls[j].b # c.b),
                 <<"C30", "a package is refused although its place is free">>)
    [] e.k = "look" ->
         If(\E f \in s.want : f \notin Range(e.files), <<"C30", "a file is missing">>)
         \cup If(\E f \in Range(e.files) : f \notin s.want, <<"C30", "there is an unexpected file">>)
         \cup If(\E f \in Range(e.files) : Count(e.files, f) > 1, <<"C30", "a file is there twice">>)
         \cup If(e.lost > 0, <<"C30", "a file that was there is gone or altered">>)
    [] e.k = "build" -> If(~e.ok, <<"C30", "the generated program does not build">>)
    [] e.k = "run" ->
         If(~e.ok \/ ~e.done, <<"C30", "the generated program fails">>)
         \cup If(Len(e.items) # 10 \/ Range(e.items) # 0..9, <<"C30", "the generated pipeline does not deliver every request once">>)
    [] OTHER -> {<<"MODEL", "unknown event">>}

Eff(s, e) ==
  CASE e.k = "pre" -> [ s EXCEPT !.taken = @ \cup {e.b} ]
    [] e.k = "init" -> [ s EXCEPT !.calls = Put(@, e.j, [b |-> e.b, m |-> e.m]) ]
    [] e.k = "initret" ->
         LET c == s.calls[e.j] t == [ s EXCEPT !.calls = Drop(@, e.j) ] IN
         IF e.ok THEN [ t EXCEPT !.taken = @ \cup {c.b}, !.want = @ \cup Files(c.b, c.m) ] ELSE t
    [] OTHER -> s
=============================================================================

------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* Contract of pool creation, naming and the registry of pools.  A name is *)
(* a base b (0: the empty name, -1: none of those requested) and a number n *)
(* (0: the base name itself).  Events:                                     *)
(*   new i b z v            New is called with base b; z: the size is       *)
(*                          allowed; v: the name is allowed                 *)
(*   newret i ok b n        New returned (a pool with this name)            *)
(*   job i / jobend i       a job of pool i starts / ends                   *)
(*   close i / closeret i   Close is called / returned                      *)
(*   name i b n             GetName                                         *)
(*   pools j / poolsret j l the enumeration is started / has ended, listing *)
(*                          the pools l (-1: a pool not returned by New yet) *)
(*   leak n                 goroutines left at the end                      *)
(*   q                      quiescence                                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Empty        == [x \in {} |-> 0]
If(c, v)     == IF c THEN {v} ELSE {}
Count(l, x)  == Cardinality({ k \in DOMAIN l : l[k] = x })

\* pools: base, number, state (new, open, closing, closed), running jobs and, during the creation, ok: it has to
\*        succeed, cont: another pool may have had the base name in the meantime
\* enums: the enumerations under way: must: the pools open at the start; gone: those closed at the start
InitState(cfg) == [ pools |-> Empty, enums |-> Empty ]

Ids(s) == DOMAIN s.pools
\* A pool is open from the end of its creation until Close has waited for its last job.
Open(p) == p.st = "open" \/ (p.st = "closing" /\ p.jobs > 0)
Held(s) == { i \in Ids(s) : Open(s.pools[i]) /\ s.pools[i].b # 0 }
Creating(s) == { i \in Ids(s) : s.pools[i].st = "new" }
\* Pools that may have base name b now.
MayHave(s, b) == { i \in Ids(s) : s.pools[i].b = b /\ (s.pools[i].st = "new" \/ (s.pools[i].n = 0 /\ s.pools[i].st \in {"open", "closing"})) }

Viol(s, e) ==
  CASE e.k \in {"new", "job", "jobend", "close", "closeret", "pools"} -> {}
    [] e.k = "newret" ->
         LET p == s.pools[e.i] IN
         If(e.ok /\ ~p.ok, <<"C04", "a pool was made although size or name is not allowed">>)
         \cup If(~e.ok /\ p.ok, <<"C06", "no pool was made although size and name are allowed">>)
         \cup If(e.ok /\ p.ok /\ (e.b # p.b \/ (e.b = 0 /\ e.n # 0)), <<"C06", "the name is not the requested one with or without a number">>)
         \cup If(e.ok /\ p.ok /\ e.b > 0 /\ \E j \in Held(s) : s.pools[j].b = e.b /\ s.pools[j].n = e.n, <<"C06", "two open pools have the same name">>)
         \cup If(e.ok /\ p.ok /\ e.b > 0 /\ e.n # 0 /\ ~p.cont, <<"C06", "a free name was not given to the pool that asked for it">>)
         \cup If(e.ok /\ p.ok /\ e.b > 0 /\ e.n # 0 /\ ~p.cont /\ \E j \in Ids(s) : s.pools[j].b = p.b /\ s.pools[j].st = "failed",
                 <<"C04", "a rejected construction has taken a name">>)
    [] e.k = "name" -> If(s.pools[e.i].b # e.b \/ s.pools[e.i].n # e.n, <<"C06", "the name of a pool has changed">>)
    [] e.k = "poolsret" ->
         LET c == s.enums[e.j]
             l == { e.l[x] : x \in DOMAIN e.l } IN
         If(~((c.must \cap Held(s)) \subseteq l), <<"C06", "an open pool is missing in the enumeration">>)
         \cup If(\E i \in l \ {-1} : i \notin Ids(s) \/ i \in c.gone, <<"C06", "a closed pool is in the enumeration">>)
         \cup If(\E i \in (l \ {-1}) \cap Ids(s) : s.pools[i].b = 0, <<"C06", "an unnamed pool is in the enumeration">>)
         \cup If(\E i \in l \ {-1} : Count(e.l, i) > 1, <<"C06", "a pool is twice in the enumeration">>)
         \cup If(Count(e.l, -1) > Cardinality(Creating(s)), <<"C06", "an unknown pool is in the enumeration">>)
    [] e.k = "q" ->
         If(Creating(s) # {}, <<"C06", "the creation of a pool does not end">>)
         \cup If(DOMAIN s.enums # {}, <<"C06", "the enumeration does not end">>)
         \cup If(\E i \in Ids(s) : s.pools[i].st = "closing" /\ s.pools[i].jobs = 0, <<"C06", "closing a pool does not end">>)
    [] e.k = "leak" -> If(e.n > 0 /\ \E i \in Ids(s) : s.pools[i].st = "failed", <<"C04", "a rejected construction leaves goroutines">>)
                       \cup If(e.n > 0, <<"C06", "goroutines are left after all pools have been closed">>)
    [] e.k \in {"crash", "race", "hang", "stuck"} -> { <<p, "creating or closing pools crashes, races or hangs">> : p \in {"C04", "C06"} }
    [] OTHER -> {<<"MODEL", "unknown event">>}

Eff(s, e) ==
  CASE e.k = "new" ->
         LET t == [ s EXCEPT !.pools = [ i \in DOMAIN @ |-> IF @[i].st = "new" /\ @[i].b = e.b THEN [@[i] EXCEPT !.cont = TRUE] ELSE @[i] ] ] IN
         [ t EXCEPT !.pools = Put(@, e.i, [b |-> e.b, n |-> 0, st |-> "new", jobs |-> 0, ok |-> e.z /\ e.v, cont |-> MayHave(s, e.b) # {}]) ]
    [] e.k = "newret" -> [ s EXCEPT !.pools[e.i] = [@ EXCEPT !.st = IF e.ok THEN "open" ELSE "failed", !.n = e.n, !.b = IF e.ok THEN e.b ELSE @] ]
    [] e.k = "job" -> [ s EXCEPT !.pools[e.i].jobs = @ + 1 ]
    [] e.k = "jobend" -> [ s EXCEPT !.pools[e.i].jobs = @ - 1 ]
    [] e.k = "close" -> [ s EXCEPT !.pools[e.i].st = "closing" ]
    [] e.k = "closeret" -> [ s EXCEPT !.pools[e.i].st = "closed" ]
    [] e.k = "pools" -> [ s EXCEPT !.enums = Put(@, e.j, [must |-> Held(s), gone |-> { i \in Ids(s) : s.pools[i].st = "closed" }]) ]
    [] e.k = "poolsret" -> [ s EXCEPT !.enums = Drop(@, e.j) ]
    [] OTHER -> s
=============================================================================

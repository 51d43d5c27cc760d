--------------------------------- MODULE Span ---------------------------------
(***************************************************************************)
(* The life of OpenTelemetry spans in wait.Group and stagedpipe.  Traces are *)
(* those of Group and Pipe, with the events of a recording tracer:           *)
(*   ss i p    span i starts in span p (1: the caller's span)                *)
(*   se i      it ends;  su i: something is recorded in it;  sx i: an error  *)
(* and the span sp that the code of the user sees in its context             *)
(* (0: none): st, en (stage), pb (preprocessor), out (delivered request),    *)
(* start, end (function of a Group).  Of the other events these matter:      *)
(*   sub r g / clret g / leak           submitted / group closed / all over  *)
(*   round g / go g f tr / waitret g     tr: called with a recording span    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty        == [x \in {} |-> 0]
If(c, v)     == IF c THEN {<<"C31", v>>} ELSE {}
Get(f, k)    == IF k \in DOMAIN f THEN f[k] ELSE 0

\* sp: the spans: the one they lie in, whether they are open, whether an error was recorded
\* stage: the spans of stages, req: request -> span, grp: group of requests -> span, of: request -> group
\* rnd: Group -> its round: with what contexts Go was called, its span;  old: spans of earlier rounds
InitState(cfg) == [ on |-> cfg.spans, sp |-> Empty, stage |-> {}, req |-> Empty, grp |-> Empty, of |-> Empty,
                    rnd |-> Empty, old |-> {} ]
NoRound == [tr |-> {}, span |-> 0]

Own(s, i)    == i \in DOMAIN s.sp
Open(s, i)   == i = 1 \/ (Own(s, i) /\ s.sp[i].open)
Parent(s, i) == IF Own(s, i) THEN s.sp[i].p ELSE 0
Err(s, i)    == Own(s, i) /\ s.sp[i].err
Has(s, f, i) == \E k \in DOMAIN f : f[k] = i
\* the span of a delivered request
ReqSpan(s, e) == IF e.r \in DOMAIN s.req THEN s.req[e.r] ELSE e.sp

Stage(s, e) ==
  LET p == Parent(s, e.sp) IN
  If(~Own(s, e.sp) \/ ~Open(s, e.sp), "a stage runs without an open span")
  \cup If(e.sp \in s.stage, "two stages share a span")
  \cup If(Own(s, e.sp) /\ (~Own(s, p) \/ ~Open(s, p) \/ p \in s.stage), "the span of a stage does not lie in the open span of its request")
  \cup If(Own(s, p) /\ e.r \in DOMAIN s.req /\ s.req[e.r] # p, "the stages of a request lie in different spans")
  \cup If(Own(s, p) /\ \E r \in DOMAIN s.req : r # e.r /\ s.req[r] = p, "two requests share a span")
Func(s, e) ==
  LET r == s.rnd[e.g] IN
  If(e.sp # 0 /\ ~Open(s, e.sp), "a function runs in a span that has ended")
  \cup If(r.tr = {TRUE} /\ ~Own(s, e.sp), "a function does not see the span of its group")
  \cup If(r.tr = {FALSE} /\ e.sp # 0, "a function sees a span although none was passed")
  \cup If(Own(s, e.sp) /\ (e.sp \in s.old \/ r.span \notin {0, e.sp} \/ \E g \in DOMAIN s.rnd \ {e.g} : s.rnd[g].span = e.sp),
          "groups or rounds share a span, or a round has two")

Viol(s, e) ==
  IF ~s.on THEN {} ELSE
  CASE e.k = "ss" -> If(~Open(s, e.p), "a span starts in one that is not open")
    [] e.k = "se" -> If(e.i = 1, "the span of the caller was ended")
                     \cup If(Own(s, e.i) /\ ~Open(s, e.i), "a span ends twice")
                     \cup If(\E c \in DOMAIN s.sp : s.sp[c].p = e.i /\ s.sp[c].open, "a span ends before one that lies in it")
    [] e.k \in {"su", "sx"} -> If(~Open(s, e.i), "something is recorded in a span that has ended")
    [] e.k = "st" -> Stage(s, e)
    [] e.k = "pb" -> If(~Own(s, e.sp) \/ ~Open(s, e.sp) \/ e.sp \in s.stage, "a preprocessor does not see the span of its stage")
    [] e.k = "en" -> If(Own(s, e.sp) /\ ~Open(s, e.sp), "the span of a stage ends before the stage")
    [] e.k = "out" -> LET x == ReqSpan(s, e) IN
                      If(~Own(s, x), "a request has no span")
                      \cup If(Own(s, x) /\ Open(s, x), "a request is delivered although its span is open")
                      \cup If(Own(s, x) /\ ~Open(s, x) /\ e.e # 0 /\ ~Err(s, x), "the error of a request is not recorded in its span")
    [] e.k = "clret" -> If(Own(s, Get(s.grp, e.g)) /\ Open(s, s.grp[e.g]), "a request group is closed although its span is open")
    [] e.k = "start" -> Func(s, e)
    [] e.k = "end" -> If(Own(s, e.sp) /\ ~Open(s, e.sp), "the span of a group ends before a function")
    [] e.k = "waitret" -> LET x == s.rnd[e.g].span IN
                          If(x # 0 /\ Open(s, x), "Wait returned although the span of the group is open")
    [] e.k = "leak" -> If(\E i \in DOMAIN s.sp : s.sp[i].open, "a span is never ended")
    [] e.k \in {"crash", "race", "hang", "stuck"} -> If(TRUE, "a run with spans crashes, races or hangs")
    [] OTHER -> {}

StageEff(s, e) ==
  LET p == Parent(s, e.sp)
      q == Parent(s, p) IN
  IF ~Own(s, e.sp) THEN s
  ELSE [s EXCEPT !.stage = @ \cup {e.sp},
                 !.req = IF Own(s, p) /\ p \notin s.stage /\ e.r \notin DOMAIN @ THEN Put(@, e.r, p) ELSE @,
                 !.grp = IF Own(s, q) /\ e.r \in DOMAIN s.of THEN Put(@, s.of[e.r], q) ELSE @]
Eff(s, e) ==
  IF ~s.on THEN s ELSE
  CASE e.k = "ss" -> [s EXCEPT !.sp = Put(@, e.i, [p |-> e.p, open |-> TRUE, err |-> FALSE])]
    [] e.k = "se" /\ Own(s, e.i) -> [s EXCEPT !.sp[e.i].open = FALSE]
    [] e.k = "sx" /\ Open(s, e.i) /\ e.i # 1 -> [s EXCEPT !.sp[e.i].err = TRUE]
    [] e.k = "sub" -> [s EXCEPT !.of = Put(@, e.r, e.g)]
    [] e.k = "st" -> StageEff(s, e)
    [] e.k = "round" -> [s EXCEPT !.old = IF e.g \in DOMAIN s.rnd THEN @ \cup ({s.rnd[e.g].span} \ {0}) ELSE @, !.rnd = Put(@, e.g, NoRound)]
    [] e.k = "go" -> [s EXCEPT !.rnd[e.g].tr = @ \cup {e.tr}]
    [] e.k = "start" -> IF Own(s, e.sp) THEN [s EXCEPT !.rnd[e.g].span = e.sp] ELSE s
    [] OTHER -> s
=============================================================================

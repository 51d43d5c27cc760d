--------------------------------- MODULE PipeGen -------------------------------
(* The scripts with which the real pipelines are run: every history of L       *)
(* actions of the environment on a pipeline with a request group.  The mode of *)
(* the pipeline, its parallelism, its preprocessors and whether the            *)
(* environment waits for quiescence are added by the harness.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT L
VARIABLE s
Is(o) == { x \in DOMAIN s : s[x].op = o }
Some(o) == Is(o) # {}
V(n, e, g, c, pp) == [next |-> n, err |-> e, gate |-> g, ctx |-> c, pp |-> pp, ppgate |-> 0]
\* programs of a request: what happens at its first, second, ... stage
P1 == <<V(2, 0, TRUE, FALSE, 0), V(0, 0, FALSE, FALSE, 0)>>                                    \* two stages, slowly
P2 == <<V(2, 3, FALSE, FALSE, 0), V(0, 0, FALSE, FALSE, 0)>>                                    \* an error
P3 == <<V(2, 0, FALSE, FALSE, 0), V(3, 0, TRUE, TRUE, 0), V(2, 0, FALSE, FALSE, 0), V(0, 0, FALSE, FALSE, 0)>>  \* a loop; heeds its context
P4 == <<V(3, 0, FALSE, FALSE, 0), V(0, 0, FALSE, FALSE, 1)>>                                    \* the preprocessor of the second stage fails
Sub(c, v) == [op |-> "sub", g |-> 0, subs |-> <<[c |-> c, reuse |-> FALSE, stale |-> 0, v |-> v]>>]
Two(v, w) == [op |-> "sub", g |-> 0, subs |-> <<[c |-> 1, reuse |-> FALSE, stale |-> 0, v |-> v], [c |-> 0, reuse |-> TRUE, stale |-> 1, v |-> w]>>]
Ops == { Sub(0, P1), Sub(1, P1), Sub(0, P2), Sub(1, P3), Sub(0, P4), Two(P3, P1) }
       \cup (IF Some("sub") THEN { [op |-> "open", n |-> 1] } ELSE {})
       \cup (IF ~Some("cancel") THEN { [op |-> "cancel", n |-> 0] } ELSE {})
       \cup (IF Some("sub") /\ ~Some("recv") THEN { [op |-> "recv", g |-> 0, n |-> 1] } ELSE {})
       \cup (IF Some("sub") /\ ~Some("close") THEN { [op |-> "close", g |-> 0] } ELSE {})
       \cup (IF Some("sub") /\ ~Some("sleep") THEN { [op |-> "sleep", n |-> 7] } ELSE {})
       \cup (IF ~Some("life") THEN { [op |-> "life", more |-> TRUE, subs |-> <<[c |-> 0, reuse |-> FALSE, stale |-> 0, v |-> P1]>>] } ELSE {})
Init == s = <<>>
Next == /\ Len(s) < L
        /\ \E o \in Ops : s' = Append(s, o)
        /\ (Len(s') = L /\ \E x \in DOMAIN s' : s'[x].op = "sub")
             => PrintT("SCRIPT|" \o ToJson([ops |-> <<[op |-> "group", p |-> 0, sync |-> FALSE], [op |-> "stat", p |-> 0, sync |-> TRUE]>> \o s', ctx |-> <<0>>]))
=============================================================================

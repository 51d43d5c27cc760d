--------------------------------- MODULE ParGen --------------------------------
(* The scripts with which the real slices.Run, chans.Access and chans.Modify   *)
(* are run: an operation on two elements whose calls wait for the environment  *)
(* and return nil, an error, or the error of their context, and every order of *)
(* L actions of the environment.  The pool, the capacities of the channels and *)
(* whether the operation stops at an error are added by the harness.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT L
VARIABLES kind, elems, s
N == 2
Is(o) == { x \in DOMAIN s : s[x].op = o }
Some(o) == Is(o) # {}
Num(o) == Cardinality(Is(o))
Opened == { s[x].i : x \in Is("open") }
Ops == (IF ~Some("call") THEN { [op |-> "call"] } ELSE {})
       \cup (IF Some("call") /\ ~Some("cancel") THEN { [op |-> "cancel"] } ELSE {})
       \cup (IF Some("call") THEN [op : {"open"}, i : { i \in 1..N \ Opened : kind = "slice" \/ i <= Num("send") }] ELSE {})
       \cup (IF kind # "slice" /\ Num("send") < N /\ ~Some("close") THEN { [op |-> "send", i |-> Num("send") + 1] } ELSE {})
       \cup (IF kind # "slice" /\ ~Some("close") /\ Some("call") THEN { [op |-> "close"] } ELSE {})
       \cup (IF kind = "modify" /\ Num("recv") < 1 /\ Some("send") THEN { [op |-> "recv", n |-> 1] } ELSE {})
\* how the call for an element ends: its error, whether it heeds its context, and how often a result is set
Elem == { [gate |-> TRUE, gc |-> FALSE, e |-> 0, set |-> 1], [gate |-> TRUE, gc |-> FALSE, e |-> 1, set |-> 1],
          [gate |-> TRUE, gc |-> TRUE, e |-> 4, set |-> 0], [gate |-> FALSE, gc |-> FALSE, e |-> 0, set |-> 2] }
Long == IF kind = "slice" THEN IF L < 4 THEN L ELSE 4 ELSE L
Init == kind \in {"slice", "access", "modify"} /\ elems \in [1..N -> Elem] /\ s = <<>>
Next == /\ Len(s) < Long
        /\ \E o \in Ops : s' = Append(s, o)
        /\ UNCHANGED <<kind, elems>>
        /\ (Len(s') = Long /\ \E x \in DOMAIN s' : s'[x].op = "call")
             => PrintT("SCRIPT|" \o ToJson([kind |-> kind, n |-> N, elems |-> elems, ops |-> s']))
=============================================================================

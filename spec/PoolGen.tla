-------------------------------- MODULE PoolGen --------------------------------
(* The scripts with which the real pools are run: every history of L           *)
(* environment actions with at most one Wait, one reader of Running, one       *)
(* invalid Submit and one cancelled context.  Job J is the Jth submitted one,  *)
(* so that no two histories differ in names only.  The kind and the size of    *)
(* the pool and whether the environment waits for quiescence between its       *)
(* actions are added by the harness.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT L
VARIABLE s
Is(o) == { x \in DOMAIN s : s[x].op = o }
Subs == Cardinality(Is("sub"))
Gated == { s[x].j : x \in { y \in Is("sub") : s[y].g } } \ { s[x].j : x \in Is("open") }
Some(o) == Is(o) # {}
Ops == [op : {"sub"}, j : {Subs + 1}, nb : BOOLEAN, g : BOOLEAN, x : IF Some("cancel") THEN {0} ELSE {0, 1}]
       \cup [op : {"open"}, j : Gated]
       \cup (IF Some("sub") /\ ~Some("wait") THEN { [op |-> "wait"] } ELSE {})
       \cup (IF Some("sub") /\ ~Some("run") THEN { [op |-> "run"] } ELSE {})
       \cup (IF ~Some("bad") THEN [op : {"bad"}, j : {0, 1}] ELSE {})
       \cup (IF ~Some("cancel") /\ \E x \in Is("sub") : s[x].x = 1 THEN { [op |-> "cancel", x |-> 1] } ELSE {})
\* Contexts matter only if they are cancelled, and gates only if somebody can notice.
Useful(h) == \/ \A x \in DOMAIN h : h[x].op = "sub" => h[x].x = 0
             \/ \E x \in DOMAIN h : h[x].op = "cancel"
Init == s = <<>>
Next == /\ Len(s) < L
        /\ \E o \in Ops : s' = Append(s, o)
        /\ Len(s') = L /\ Useful(s') => PrintT("SCRIPT|" \o ToJson([ops |-> s']))
=============================================================================

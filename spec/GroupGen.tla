-------------------------------- MODULE GroupGen -------------------------------
(* The scripts with which the real wait.Group is run: every history of L       *)
(* environment actions with at most two rounds, one cancellation and one       *)
(* reader of Running.  Function F is the Fth one, which returns nil (0), an    *)
(* error of its own (1) or a context error (3).  The pool and its size and     *)
(* whether the environment waits for quiescence are added by the harness.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT L
VARIABLE s
Is(o) == { x \in DOMAIN s : s[x].op = o }
Gos == Cardinality(Is("go"))
Gated == { s[x].f : x \in { y \in Is("go") : s[y].gate } } \ { s[x].f : x \in Is("open") }
Some(o) == Is(o) # {}
Ops == [op : {"go"}, g : {1}, f : {Gos + 1}, gate : BOOLEAN, gc : {FALSE}, e : {0, 1, 3}]
       \cup [op : {"go"}, g : {1}, f : {Gos + 1}, gate : {TRUE}, gc : {TRUE}, e : {4}]
       \cup [op : {"open"}, f : Gated]
       \cup (IF Some("go") /\ s[Len(s)].op # "wait" THEN { [op |-> "wait", g |-> 1] } ELSE {})
       \cup (IF ~Some("cancel") THEN { [op |-> "cancel", g |-> 1, c |-> 0] } ELSE {})
       \cup (IF Some("go") /\ ~Some("run") THEN { [op |-> "run", g |-> 1] } ELSE {})
Init == s = <<>>
Next == /\ Len(s) < L
        /\ \E o \in Ops : s' = Append(s, o)
        /\ Len(s') = L => PrintT("SCRIPT|" \o ToJson([ops |-> s']))
=============================================================================

------------------------------ MODULE RegistryGen ------------------------------
(* The scripts with which the real pool registry is run: every history of L    *)
(* actions of the environment on pools of two names and of none.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT L
VARIABLE s
Is(o) == { x \in DOMAIN s : s[x].op = o }
News == Cardinality(Is("new"))
Jobs(i) == { x \in Is("job") : s[x].i = i }
Closed == { s[x].i : x \in Is("close") }
Ops == [op : {"new"}, i : {News + 1}, b : {0, 1, 2}, kind : {News % 2}, size : {1}, bad : {0}]
       \cup (IF News > 0 THEN { [op |-> "new", i |-> News + 1, b |-> 1, kind |-> (News + 1) % 2, size |-> 0, bad |-> 0],
                               [op |-> "new", i |-> News + 1, b |-> 1, kind |-> (News + 1) % 2, size |-> 1, bad |-> 1 + (News % 8)] } ELSE {})
       \cup [op : {"close"}, i : 1..News \ Closed]
       \cup [op : {"job"}, i : { i \in 1..News \ Closed : Jobs(i) = {} }]
       \cup (IF News > 0 /\ s[Len(s)].op # "pools" THEN { [op |-> "pools", i |-> 1] } ELSE {})
       \cup (IF News > 0 /\ s[Len(s)].op # "name" THEN { [op |-> "name", i |-> 1] } ELSE {})
Init == s = <<>>
Next == /\ Len(s) < L
        /\ \E o \in Ops : s' = Append(s, o)
        /\ Len(s') = L => PrintT("SCRIPT|" \o ToJson([ops |-> s']))
=============================================================================

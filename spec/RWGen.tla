---------------------------------- MODULE RWGen --------------------------------
(* The scripts with which the real RWValue is run: every program of two        *)
(* goroutines of at most L calls each, and of three goroutines of one call.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT L
VARIABLE s
Call(k, g, e, l) == [k |-> k, gate |-> g, end |-> e, load |-> l]
Calls == { Call("ld", FALSE, 0, FALSE), Call("st", FALSE, 0, FALSE), Call("lr", TRUE, 0, FALSE), Call("lr", TRUE, 1, FALSE), Call("lr", TRUE, 2, FALSE),
           Call("lr", FALSE, 3, FALSE), Call("lr", FALSE, 0, TRUE), Call("lr", FALSE, 2, FALSE) }
Short == { Call("ld", FALSE, 0, FALSE), Call("st", FALSE, 0, FALSE), Call("lr", TRUE, 0, FALSE), Call("lr", FALSE, 2, FALSE) }
Programs(C, n) == UNION { [1..k -> C] : k \in 1..n }
Init == \/ s \in { <<p, q>> : p \in Programs(Calls, L - 1), q \in Programs(Calls, L - 1) }
        \/ s \in { <<p, q>> : p \in Programs(Short, L), q \in Programs(Short, L) }
        \/ s \in { <<p, q, r>> : p \in Programs(Calls, 1), q \in Programs(Calls, 1), r \in Programs(Calls, 1) }
Next == FALSE /\ UNCHANGED s
Emit == PrintT("SCRIPT|" \o ToJson([th |-> s]))
=============================================================================

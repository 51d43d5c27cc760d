--------------------------------- MODULE ErrsGen -------------------------------
(* The scripts with which the real Errors is run: every program of two         *)
(* goroutines of at most L calls each, and of three goroutines of one call.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT L
VARIABLE s
Calls == {"rec", "ls", "fst", "app", "again"}
Programs(C, n) == UNION { [1..k -> C] : k \in 1..n }
Init == \/ s \in { <<p, q>> : p \in Programs(Calls, L), q \in Programs(Calls, L) }
        \/ s \in { <<p, q, r>> : p \in Programs(Calls, 1), q \in Programs(Calls, 1), r \in Programs(Calls, 1) }
Next == FALSE /\ UNCHANGED s
Emit == \A same \in 0..2 : PrintT("SCRIPT|" \o ToJson([th |-> s, same |-> same]))
=============================================================================

-------------------------------- MODULE QueueGen -------------------------------
(* The scripts with which the real queue is run: every history of L actions of *)
(* the environment (goroutines that push or pop one or three values, Close,    *)
(* the passing of time) for queues of several limits.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT L
VARIABLES limit, s
Closed == \E x \in DOMAIN s : s[x].op = "close"
Ops == [op : {"pop"}, n : {1, 3}]
       \cup (IF Closed THEN {} ELSE [op : {"push"}, n : {1, 3}] \cup { [op |-> "close", n |-> 1] })
       \cup (IF s # <<>> /\ s[Len(s)].op # "sleep" THEN [op : {"sleep"}, n : {1000000}] ELSE {})
Init == limit \in {0, 1, 2} /\ s = <<>>
Next == /\ Len(s) < L
        /\ \E o \in Ops : s' = Append(s, o)
        /\ UNCHANGED limit
        /\ Len(s') = L => PrintT("SCRIPT|" \o ToJson([limit |-> limit, ops |-> s']))
=============================================================================

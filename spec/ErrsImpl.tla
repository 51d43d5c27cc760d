------------------------------- MODULE ErrsImpl -------------------------------
(* The algorithm of goroutines.Errors under the contract Errs: an array that  *)
(* is appended to in two steps, under a lock, and copied for readers.  Bug    *)
(* selects wrong variants that TLC has to refute.                             *)
EXTENDS Errs
CONSTANTS N, M, Bug    \* recordings, readings
VARIABLES pc, seen, mu, arr, rpc, rk, rlist, alias, st, bad, quiet
impl == <<pc, seen, mu, arr, rpc, rk, rlist, alias>>
vars == <<impl, st, bad, quiet>>
I == 1..N
J == 1..M
Emit(e) == st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e) /\ quiet' = FALSE
Silent == UNCHANGED <<st, bad>> /\ quiet' = FALSE
Init == /\ pc = [i \in I |-> "idle"] /\ seen = [i \in I |-> <<>>] /\ mu = 0 /\ arr = <<>>
        /\ rpc = [j \in J |-> "idle"] /\ rk = [j \in J |-> "ls"] /\ rlist = [j \in J |-> <<>>] /\ alias = FALSE
        /\ st = InitState(0) /\ bad = {} /\ quiet = FALSE
P(i, a, b) == pc[i] = a /\ pc' = [pc EXCEPT ![i] = b]
R(j, a, b) == rpc[j] = a /\ rpc' = [rpc EXCEPT ![j] = b]
CallRec(i) == P(i, "idle", "called") /\ (\A h \in 1..(i - 1) : pc[h] # "idle") /\ Emit([k |-> "rec", i |-> i])
              /\ UNCHANGED <<seen, mu, arr, rpc, rk, rlist, alias>>
CallRead(j, k) == R(j, "idle", "called") /\ (\A h \in 1..(j - 1) : rpc[h] # "idle") /\ rk' = [rk EXCEPT ![j] = k]
                  /\ Emit([k |-> k, j |-> j]) /\ UNCHANGED <<pc, seen, mu, arr, rlist, alias>>
LookAgain(j) == /\ rpc[j] = "done" /\ rk[j] = "ls" /\ rpc' = [rpc EXCEPT ![j] = "over"]
                /\ LET n == Len(rlist[j]) IN
                   Emit([k |-> "again", j |-> j, l |-> IF Bug = "alias" THEN [x \in 1..n |-> arr[Len(arr) - n + x]] ELSE rlist[j]])
                /\ UNCHANGED <<pc, seen, mu, arr, rk, rlist, alias>>
Env == \/ \E i \in I : CallRec(i)
       \/ \E j \in J : CallRead(j, "ls") \/ CallRead(j, "fst") \/ LookAgain(j)
Lock(i) == P(i, "called", "locked") /\ (IF Bug = "nolock" THEN UNCHANGED mu ELSE mu = 0 /\ mu' = i) /\ Silent
           /\ UNCHANGED <<seen, arr, rpc, rk, rlist, alias>>
Look(i) == P(i, "locked", "seen") /\ seen' = [seen EXCEPT ![i] = arr] /\ Silent /\ UNCHANGED <<mu, arr, rpc, rk, rlist, alias>>
Write(i) == P(i, "seen", "written") /\ arr' = (IF Bug = "front" THEN <<i>> \o seen[i] ELSE Append(seen[i], i)) /\ Silent
            /\ UNCHANGED <<seen, mu, rpc, rk, rlist, alias>>
Unlock(i) == P(i, "written", "unlocked") /\ mu' = (IF Bug = "nolock" THEN mu ELSE 0) /\ Silent /\ UNCHANGED <<seen, arr, rpc, rk, rlist, alias>>
RecRet(i) == P(i, "unlocked", "done") /\ Emit([k |-> "recret", i |-> i]) /\ UNCHANGED <<seen, mu, arr, rpc, rk, rlist, alias>>
Read(j) == R(j, "called", "read") /\ mu = 0 /\ rlist' = [rlist EXCEPT ![j] = arr] /\ Silent /\ UNCHANGED <<pc, seen, mu, arr, rk, alias>>
ReadRet(j) == /\ R(j, "read", "done")
              /\ Emit(IF rk[j] = "ls" THEN [k |-> "lsret", j |-> j, l |-> rlist[j]]
                      ELSE [k |-> "fstret", j |-> j, v |-> IF rlist[j] = <<>> THEN 0 ELSE rlist[j][IF Bug = "last" THEN Len(rlist[j]) ELSE 1]])
              /\ UNCHANGED <<pc, seen, mu, arr, rk, rlist, alias>>
Internal == (\E i \in I : Lock(i) \/ Look(i) \/ Write(i) \/ Unlock(i) \/ RecRet(i)) \/ (\E j \in J : Read(j) \/ ReadRet(j))
Quiesce == /\ ~quiet /\ ~ENABLED Internal
           /\ LET e == [k |-> "q"] IN st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e)
           /\ quiet' = TRUE /\ UNCHANGED impl
Next == Internal \/ Env \/ Quiesce
Correct == bad = {}
Sane == Prefix(st.known, arr) /\ \A i \in st.done : \E x \in DOMAIN arr : arr[x] = i
=============================================================================

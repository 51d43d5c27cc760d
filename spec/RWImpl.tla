-------------------------------- MODULE RWImpl --------------------------------
(* The algorithm of atomics.RWValue under the contract RW.  Bug selects wrong *)
(* variants that TLC has to refute.                                           *)
EXTENDS RW
CONSTANTS N, Kinds, Fails, Bug     \* Kinds: operations; Fails: how functions end (ok, err, panic)
Op == 1..N
VARIABLES kind, pc, rd, res, mu, v, st, bad, quiet
impl == <<kind, pc, rd, res, mu, v>>
vars == <<impl, st, bad, quiet>>
Emit(e) == st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e) /\ quiet' = FALSE
Silent == UNCHANGED <<st, bad>> /\ quiet' = FALSE
Init == /\ kind = [i \in Op |-> "none"] /\ pc = [i \in Op |-> "idle"] /\ rd = [i \in Op |-> 0] /\ res = [i \in Op |-> "ok"]
        /\ mu = 0 /\ v = 0 /\ st = InitState(0) /\ bad = {} /\ quiet = FALSE
Go(i, a, b) == pc[i] = a /\ pc' = [pc EXCEPT ![i] = b]
\* Environment
Call(i, k) == /\ Go(i, "idle", "called") /\ \A j \in 1..(i - 1) : pc[j] # "idle"
              /\ kind' = [kind EXCEPT ![i] = k]
              /\ Emit(IF k = "st" THEN [k |-> "st", i |-> i, v |-> i] ELSE [k |-> k, i |-> i])
              /\ UNCHANGED <<rd, res, mu, v>>
FEnd(i, r) == /\ Go(i, "run", "ran") /\ res' = [res EXCEPT ![i] = r]
              /\ Emit([k |-> "fe", i |-> i, n |-> i, e |-> IF r = "err" THEN i ELSE 0, p |-> r = "panic"])
              /\ UNCHANGED <<kind, rd, mu, v>>
Env == \E i \in Op : (\E k \in Kinds : Call(i, k)) \/ (\E r \in Fails : FEnd(i, r))
\* Load
LoadV(i) == /\ kind[i] = "ld" /\ Go(i, "called", "read") /\ (Bug = "readlock" => mu = 0)
            /\ rd' = [rd EXCEPT ![i] = v] /\ Silent /\ UNCHANGED <<kind, res, mu, v>>
LoadRet(i) == /\ kind[i] = "ld" /\ Go(i, "read", "done") /\ Emit([k |-> "ldret", i |-> i, v |-> rd[i]])
              /\ UNCHANGED <<kind, rd, res, mu, v>>
\* Store
Lock(i) == /\ kind[i] # "ld" /\ Go(i, "called", "locked")
           /\ IF Bug = "nolock" /\ kind[i] = "st" THEN UNCHANGED mu ELSE mu = 0 /\ mu' = i
           /\ Silent /\ UNCHANGED <<kind, rd, res, v>>
StoreV(i) == /\ kind[i] = "st" /\ Go(i, "locked", "stored") /\ v' = i /\ Silent /\ UNCHANGED <<kind, rd, res, mu>>
\* LoadReplace
LRRead(i) == /\ kind[i] = "lr" /\ Go(i, "locked", "read") /\ rd' = [rd EXCEPT ![i] = v] /\ Silent
             /\ mu' = (IF Bug = "unlockearly" THEN 0 ELSE mu) /\ UNCHANGED <<kind, res, v>>
FStart(i) == /\ kind[i] = "lr" /\ Go(i, "read", "run") /\ Emit([k |-> "fs", i |-> i, v |-> rd[i]])
             /\ UNCHANGED <<kind, rd, res, mu, v>>
LRStore(i) == /\ Go(i, "ran", "stored")
              /\ v' = (IF res[i] = "ok" \/ (res[i] = "err" /\ Bug = "storeerr") THEN i ELSE v)
              /\ Silent /\ UNCHANGED <<kind, rd, res, mu>>
Unlock(i) == /\ Go(i, "stored", "unlocked")
             /\ mu' = (IF res[i] = "panic" /\ Bug = "nodefer" THEN mu ELSE IF mu = i THEN 0 ELSE mu)
             /\ Silent /\ UNCHANGED <<kind, rd, res, v>>
Ret(i) == /\ Go(i, "unlocked", "done")
          /\ Emit(IF kind[i] = "st" THEN [k |-> "stret", i |-> i]
                  ELSE IF res[i] = "panic" THEN [k |-> "lrpanic", i |-> i]
                  ELSE [k |-> "lrret", i |-> i, e |-> IF res[i] = "err" THEN i ELSE 0])
          /\ UNCHANGED <<kind, rd, res, mu, v>>
Internal == \E i \in Op : LoadV(i) \/ LoadRet(i) \/ Lock(i) \/ StoreV(i) \/ LRRead(i) \/ FStart(i) \/ LRStore(i) \/ Unlock(i) \/ Ret(i)
Quiesce == /\ ~quiet /\ ~ENABLED Internal
           /\ LET e == [k |-> "q"] IN st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e)
           /\ quiet' = TRUE /\ UNCHANGED impl
Next == Internal \/ Env \/ Quiesce
Correct == bad = {}
Sane == /\ ~st.lost /\ st.poss # {}
        /\ \E c \in Closure(st) : c.cur = v     \* the real state is one of the possible ones
=============================================================================

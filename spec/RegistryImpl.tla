----------------------------- MODULE RegistryImpl -----------------------------
(* The algorithm of New, Close and the enumeration of pools under the contract *)
(* Registry.  Bug selects wrong variants that TLC has to refute.               *)
EXTENDS Registry
CONSTANTS N, M, Bases, Bug    \* pools, enumerations, base names (0: empty)
I == 1..N
J == 1..M
VARIABLES pc, base, num, valid, job, epc, seen, todo, reg, lock, st, bad, quiet
impl == <<pc, base, num, valid, job, epc, seen, todo, reg, lock>>
vars == <<impl, st, bad, quiet>>
Emit(e) == st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e) /\ quiet' = FALSE
Silent == UNCHANGED <<st, bad>> /\ quiet' = FALSE
\* reg: the registry, a set of entries <<base, number, pool>>; lock: the enumeration holding the lock (0: none)
Init == /\ pc = [i \in I |-> "idle"] /\ base = [i \in I |-> 0] /\ num = [i \in I |-> 0] /\ valid = [i \in I |-> TRUE]
        /\ job = [i \in I |-> "no"] /\ epc = [j \in J |-> "idle"] /\ seen = [j \in J |-> <<>>] /\ todo = [j \in J |-> {}] /\ reg = {} /\ lock = 0
        /\ st = InitState(0) /\ bad = {} /\ quiet = FALSE
P(i, a, b) == pc[i] = a /\ pc' = [pc EXCEPT ![i] = b]
Q(j, a, b) == epc[j] = a /\ epc' = [epc EXCEPT ![j] = b]
Taken(i) == \E r \in reg : r[1] = base[i] /\ r[2] = num[i]
\* Environment
New(i, b, v) == /\ P(i, "idle", "called") /\ \A h \in 1..(i - 1) : pc[h] # "idle"
                /\ base' = [base EXCEPT ![i] = b] /\ valid' = [valid EXCEPT ![i] = v]
                /\ Emit([k |-> "new", i |-> i, b |-> b, z |-> v, v |-> TRUE])
                /\ UNCHANGED <<num, job, epc, seen, todo, reg, lock>>
Job(i) == /\ pc[i] = "open" /\ job[i] = "no" /\ job' = [job EXCEPT ![i] = "running"] /\ Emit([k |-> "job", i |-> i])
          /\ UNCHANGED <<pc, base, num, valid, epc, seen, todo, reg, lock>>
JobEnd(i) == /\ job[i] = "running" /\ job' = [job EXCEPT ![i] = "over"] /\ Emit([k |-> "jobend", i |-> i])
             /\ UNCHANGED <<pc, base, num, valid, epc, seen, todo, reg, lock>>
Close(i) == /\ P(i, "open", IF Bug = "earlyunreg" THEN "waited" ELSE "closing") /\ Emit([k |-> "close", i |-> i])
            /\ UNCHANGED <<base, num, valid, job, epc, seen, todo, reg, lock>>
Enum(j) == /\ Q(j, "idle", "called") /\ \A h \in 1..(j - 1) : epc[h] # "idle"
           /\ Emit([k |-> "pools", j |-> j]) /\ UNCHANGED <<pc, base, num, valid, job, seen, todo, reg, lock>>
Env == \/ \E i \in I : (\E b \in Bases, v \in BOOLEAN : New(i, b, v)) \/ Job(i) \/ JobEnd(i) \/ Close(i)
       \/ \E j \in J : Enum(j)
\* Creation
Check(i) == /\ IF valid[i] \/ Bug = "rejreg" THEN P(i, "called", "try") ELSE P(i, "called", "reject")
            /\ Silent /\ UNCHANGED <<base, num, valid, job, epc, seen, todo, reg, lock>>
Entry(i) == IF base[i] = 0 THEN {} ELSE {<<base[i], num[i], i>>}
Try(i) == /\ lock = 0 /\ pc[i] = "try"
          /\ IF base[i] # 0 /\ Taken(i)
             THEN IF Bug = "giveup" /\ num[i] > 0
                  THEN pc' = [pc EXCEPT ![i] = "reject"] /\ UNCHANGED <<num, reg>>
                  ELSE num' = [num EXCEPT ![i] = @ + 1] /\ UNCHANGED <<pc, reg>>
             ELSE IF Bug = "split"
                  THEN pc' = [pc EXCEPT ![i] = "insert"] /\ UNCHANGED <<num, reg>>
                  ELSE /\ reg' = reg \cup Entry(i) /\ UNCHANGED num
                       /\ pc' = [pc EXCEPT ![i] = IF valid[i] THEN "registered" ELSE "reject"]
          /\ Silent /\ UNCHANGED <<base, valid, job, epc, seen, todo, lock>>
Insert(i) == /\ lock = 0 /\ P(i, "insert", "registered") /\ reg' = reg \cup Entry(i)
             /\ Silent /\ UNCHANGED <<base, num, valid, job, epc, seen, todo, lock>>
NewRet(i) == /\ P(i, "registered", "open") /\ Emit([k |-> "newret", i |-> i, ok |-> TRUE, b |-> base[i], n |-> num[i]])
             /\ UNCHANGED <<base, num, valid, job, epc, seen, todo, reg, lock>>
NewErr(i) == /\ P(i, "reject", "over") /\ Emit([k |-> "newret", i |-> i, ok |-> FALSE, b |-> 0, n |-> 0])
             /\ UNCHANGED <<base, num, valid, job, epc, seen, todo, reg, lock>>
\* Close
Waited(i) == /\ job[i] # "running" /\ P(i, "closing", IF Bug = "earlyunreg" THEN "unregistered" ELSE "waited")
             /\ Silent /\ UNCHANGED <<base, num, valid, job, epc, seen, todo, reg, lock>>
Unreg(i) == /\ lock = 0 /\ P(i, "waited", IF Bug = "earlyunreg" THEN "closing" ELSE "unregistered")
            /\ reg' = (IF Bug = "nounreg" THEN reg
                       ELSE IF Bug = "unregbase" THEN { r \in reg : ~(r[1] = base[i] /\ r[2] = 0) }
                       ELSE { r \in reg : r[3] # i })
            /\ Silent /\ UNCHANGED <<base, num, valid, job, epc, seen, todo, lock>>
CloseRet(i) == /\ P(i, "unregistered", "over") /\ Emit([k |-> "closeret", i |-> i])
               /\ UNCHANGED <<base, num, valid, job, epc, seen, todo, reg, lock>>
\* Enumeration
ELock(j) == /\ lock = 0 /\ Q(j, "called", "copy") /\ todo' = [todo EXCEPT ![j] = reg] /\ lock' = j
            /\ Silent /\ UNCHANGED <<pc, base, num, valid, job, seen, reg>>
ENext(j) == /\ epc[j] = "copy" /\ UNCHANGED epc
            /\ \E r \in todo[j] : /\ todo' = [todo EXCEPT ![j] = @ \ {r}]
                                  /\ seen' = [seen EXCEPT ![j] = Append(@, r[3])]
            /\ Silent /\ UNCHANGED <<pc, base, num, valid, job, reg, lock>>
EDone(j) == /\ todo[j] = {} /\ Q(j, "copy", IF Bug = "noclose" THEN "stuck" ELSE "copied") /\ lock' = 0
            /\ Silent /\ UNCHANGED <<pc, base, num, valid, job, seen, todo, reg>>
\* The harness looks for the pools of the list when the enumeration has ended.
Known(q) == [ x \in DOMAIN q |-> IF pc[q[x]] = "registered" THEN -1 ELSE q[x] ]
ERet(j) == /\ Q(j, "copied", "over") /\ Emit([k |-> "poolsret", j |-> j, l |-> Known(seen[j])])
           /\ UNCHANGED <<pc, base, num, valid, job, seen, todo, reg, lock>>
Internal == \/ \E i \in I : Check(i) \/ Try(i) \/ Insert(i) \/ NewRet(i) \/ NewErr(i) \/ Waited(i) \/ Unreg(i) \/ CloseRet(i)
            \/ \E j \in J : ELock(j) \/ ENext(j) \/ EDone(j) \/ ERet(j)
Quiesce == /\ ~quiet /\ ~ENABLED Internal
           /\ LET e == [k |-> "q"] IN st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e)
           /\ quiet' = TRUE /\ UNCHANGED impl
Next == Internal \/ Env \/ Quiesce
Correct == bad = {}
Sane == /\ \A i \in Held(st) : \E r \in reg : r = <<st.pools[i].b, st.pools[i].n, i>>
        /\ Cardinality({ <<r[1], r[2]>> : r \in reg }) = Cardinality(reg)
=============================================================================

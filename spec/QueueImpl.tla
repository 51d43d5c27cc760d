------------------------------ MODULE QueueImpl ------------------------------
(* The algorithm of the internal queue (a linked list with a head and a tail   *)
(* pointer, tokens for the limit) under the contract Queue.  Bug selects wrong *)
(* variants that TLC has to refute.                                            *)
EXTENDS Queue
CONSTANTS N, M, Limit, Bug      \* pushes, pops
V == 1..N
J == 1..M
Nil == -1
VARIABLES pc, rt, ppc, ph, pn, pcl, cpc, next, head, tail, tok, closed, st, bad, quiet
impl == <<pc, rt, ppc, ph, pn, pcl, cpc, next, head, tail, tok, closed>>
vars == <<impl, st, bad, quiet>>
Emit(e) == st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e) /\ quiet' = FALSE
Silent == UNCHANGED <<st, bad>> /\ quiet' = FALSE
\* Nodes are numbered by their values; 0 is the dummy.
Init == /\ pc = [v \in V |-> "idle"] /\ rt = [v \in V |-> 0]
        /\ ppc = [j \in J |-> "idle"] /\ ph = [j \in J |-> 0] /\ pn = [j \in J |-> Nil] /\ pcl = [j \in J |-> FALSE] /\ cpc = "idle"
        /\ next = [v \in V \cup {0} |-> Nil] /\ head = 0 /\ tail = 0 /\ tok = 0 /\ closed = FALSE
        /\ st = InitState([limit |-> Limit]) /\ bad = {} /\ quiet = FALSE
P(v, a, b) == pc[v] = a /\ pc' = [pc EXCEPT ![v] = b]
Q(j, a, b) == ppc[j] = a /\ ppc' = [ppc EXCEPT ![j] = b]
\* Environment
CallPush(v) == /\ P(v, "idle", "called") /\ cpc = "idle" /\ \A u \in 1..(v - 1) : pc[u] # "idle"
               /\ Emit([k |-> "push", v |-> v]) /\ UNCHANGED <<rt, ppc, ph, pn, pcl, cpc, next, head, tail, tok, closed>>
CallPop(j) == /\ Q(j, "idle", "called") /\ \A u \in 1..(j - 1) : ppc[u] # "idle"
              /\ Emit([k |-> "pop", j |-> j]) /\ UNCHANGED <<pc, rt, ph, pn, pcl, cpc, next, head, tail, tok, closed>>
CallClose == /\ cpc = "idle" /\ cpc' = "called" /\ \A v \in V : pc[v] \in {"idle", "done"}
             /\ Emit([k |-> "close"]) /\ UNCHANGED <<pc, rt, ppc, ph, pn, pcl, next, head, tail, tok, closed>>
Env == (\E v \in V : CallPush(v)) \/ (\E j \in J : CallPop(j)) \/ CallClose
\* Push
Token(v) == /\ P(v, "called", "token") /\ (IF Limit = 0 \/ Bug = "nolimit" THEN UNCHANGED tok ELSE tok < Limit /\ tok' = tok + 1)
            /\ Silent /\ UNCHANGED <<rt, ppc, ph, pn, pcl, cpc, next, head, tail, closed>>
LoadTail(v) == /\ P(v, "token", "tail") /\ rt' = [rt EXCEPT ![v] = tail] /\ Silent
               /\ UNCHANGED <<ppc, ph, pn, pcl, cpc, next, head, tail, tok, closed>>
\* The loop is entered again only if there is a new tail: trying in vain is no step.
Link(v) == /\ pc[v] = "tail"
           /\ IF next[rt[v]] = Nil \/ Bug = "nocas"
              THEN next' = [next EXCEPT ![rt[v]] = v] /\ pc' = [pc EXCEPT ![v] = "linked"]
              ELSE tail # rt[v] /\ pc' = [pc EXCEPT ![v] = "token"] /\ UNCHANGED next
           /\ Silent /\ UNCHANGED <<rt, ppc, ph, pn, pcl, cpc, head, tail, tok, closed>>
StoreTail(v) == /\ P(v, "linked", "pushed") /\ tail' = v /\ Silent /\ UNCHANGED <<rt, ppc, ph, pn, pcl, cpc, next, head, tok, closed>>
PushRet(v) == /\ P(v, "pushed", "done") /\ Emit([k |-> "pushret", v |-> v])
              /\ UNCHANGED <<rt, ppc, ph, pn, pcl, cpc, next, head, tail, tok, closed>>
\* Pop
ReadClosed(j) == /\ Q(j, "called", "look") /\ pcl' = [pcl EXCEPT ![j] = closed] /\ Silent
                 /\ UNCHANGED <<pc, rt, ph, pn, cpc, next, head, tail, tok, closed>>
LoadHead(j) == /\ Q(j, "look", "head") /\ ph' = [ph EXCEPT ![j] = head] /\ Silent
               /\ UNCHANGED <<pc, rt, pn, pcl, cpc, next, head, tail, tok, closed>>
LoadNext(j) == /\ ppc[j] = "head" /\ pn' = [pn EXCEPT ![j] = next[ph[j]]]
               /\ ppc' = [ppc EXCEPT ![j] = IF next[ph[j]] # Nil THEN "next" ELSE "empty"] /\ Silent
               /\ UNCHANGED <<pc, rt, ph, pcl, cpc, next, head, tail, tok, closed>>
Swap(j) == /\ ppc[j] = "next"
           /\ IF head = ph[j] \/ Bug = "popnocas" THEN head' = pn[j] /\ ppc' = [ppc EXCEPT ![j] = "got"]
              ELSE ppc' = [ppc EXCEPT ![j] = "look"] /\ UNCHANGED head
           /\ Silent /\ UNCHANGED <<pc, rt, ph, pn, pcl, cpc, next, tail, tok, closed>>
NoValue(j) == /\ ppc[j] = "empty"
              /\ ppc' = [ppc EXCEPT ![j] = IF (IF Bug = "closedlate" THEN closed ELSE pcl[j]) THEN "end" ELSE "sleep"]
              /\ pn' = [pn EXCEPT ![j] = Nil] /\ Silent /\ UNCHANGED <<pc, rt, ph, pcl, cpc, next, head, tail, tok, closed>>
\* It looks again and again; only looks that find something new are steps.
Wake(j) == /\ Q(j, "sleep", "called") /\ (next[head] # Nil \/ (closed /\ Bug # "nowake")) /\ Silent
           /\ UNCHANGED <<pc, rt, ph, pn, pcl, cpc, next, head, tail, tok, closed>>
Give(j) == /\ ppc[j] \in {"got", "end"} /\ ppc' = [ppc EXCEPT ![j] = IF ppc[j] = "got" THEN "gave" ELSE "over"]
           /\ tok' = (IF Bug = "keeptoken" THEN tok ELSE IF tok > 0 THEN tok - 1 ELSE tok)
           /\ Silent /\ UNCHANGED <<pc, rt, ph, pn, pcl, cpc, next, head, tail, closed>>
PopRet(j) == /\ ppc[j] \in {"gave", "over"} /\ ppc' = [ppc EXCEPT ![j] = "done"]
             /\ Emit([k |-> "popret", j |-> j, ok |-> ppc[j] = "gave", v |-> IF ppc[j] = "gave" THEN pn[j] ELSE 0])
             /\ UNCHANGED <<pc, rt, ph, pn, pcl, cpc, next, head, tail, tok, closed>>
\* Close
DoClose == /\ cpc = "called" /\ cpc' = "set" /\ closed' = TRUE /\ Silent /\ UNCHANGED <<pc, rt, ppc, ph, pn, pcl, next, head, tail, tok>>
CloseRet == /\ cpc = "set" /\ cpc' = "done" /\ Emit([k |-> "closeret"]) /\ UNCHANGED <<pc, rt, ppc, ph, pn, pcl, next, head, tail, tok, closed>>
Internal == \/ \E v \in V : Token(v) \/ LoadTail(v) \/ Link(v) \/ StoreTail(v) \/ PushRet(v)
            \/ \E j \in J : ReadClosed(j) \/ LoadHead(j) \/ LoadNext(j) \/ Swap(j) \/ NoValue(j) \/ Wake(j) \/ Give(j) \/ PopRet(j)
            \/ DoClose \/ CloseRet
Quiesce == /\ ~quiet /\ ~ENABLED Internal
           /\ LET e == [k |-> "q"] IN st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e)
           /\ quiet' = TRUE /\ UNCHANGED impl
Next == Internal \/ Env \/ Quiesce
Correct == bad = {}
\* The values in the list are those that are held, give or take the operations under way.
RECURSIVE List(_)
List(x) == IF next[x] = Nil THEN <<>> ELSE <<next[x]>> \o List(next[x])
Range(q) == { q[x] : x \in DOMAIN q }
Sane == /\ Range(List(head)) \subseteq (st.pushed \cup st.pushing) \ st.popped
        /\ \A v \in Held(st) \ Range(List(head)) : \E j \in st.pops : pn[j] = v
=============================================================================

------------------------------- MODULE SkelImpl -------------------------------
(* The algorithm of stagedpipe-cli init under the contract Skel: N processes  *)
(* in one directory.  Bug selects wrong variants that TLC has to refute.       *)
EXTENDS Skel
CONSTANTS N, Bases, Bug
I == 1..N
VARIABLES pc, base, main, fs, looked, st, bad
impl == <<pc, base, main, fs, looked>>
vars == <<impl, st, bad>>
Emit(e) == st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e)
Silent == UNCHANGED <<st, bad>>
\* fs: the set of files <<name, role, package>>; a directory is a file with the role dir
Init == /\ pc = [i \in I |-> "idle"] /\ base = [i \in I |-> ""] /\ main = [i \in I |-> FALSE] /\ fs = {} /\ looked = FALSE
        /\ st = InitState(0) /\ bad = {}
P(i, a, b) == pc[i] = a /\ pc' = [pc EXCEPT ![i] = b]
There(name) == \E f \in fs : f[1] = name
Write(name, role, b) == fs' = { f \in fs : f[1] # name } \cup {<<name, role, b>>}
Pre(b) == /\ ~There(b) /\ \A i \in I : pc[i] = "idle"
          /\ fs' = fs \cup {<<b, "dir", b>>} /\ Emit([k |-> "pre", b |-> b]) /\ UNCHANGED <<pc, base, main, looked>>
\* at most one process is asked for a main file
Call(i, b, m) == /\ P(i, "idle", "called") /\ (\A h \in 1..(i - 1) : pc[h] # "idle") /\ ~looked /\ (m => \A h \in I : ~main[h])
                 /\ base' = [base EXCEPT ![i] = b] /\ main' = [main EXCEPT ![i] = m]
                 /\ Emit([k |-> "init", j |-> i, b |-> b, m |-> m]) /\ UNCHANGED <<fs, looked>>
Check(i) == /\ P(i, "called", IF base[i] = "" /\ Bug # "nocheck" THEN "fail" ELSE IF Bug = "mainfirst" THEN "main" ELSE "mkdir")
            /\ Silent /\ UNCHANGED <<base, main, fs, looked>>
Look0(i) == /\ Bug = "checkthenact" /\ P(i, "mkdir", IF There(base[i]) THEN "fail" ELSE "mkdir2") /\ Silent /\ UNCHANGED <<base, main, fs, looked>>
Mkdir(i) == /\ pc[i] = (IF Bug = "checkthenact" THEN "mkdir2" ELSE "mkdir")
            /\ IF There(base[i]) /\ Bug \notin {"mkdirall", "checkthenact"}
               THEN pc' = [pc EXCEPT ![i] = "fail"] /\ UNCHANGED fs
               ELSE pc' = [pc EXCEPT ![i] = IF Bug = "mainfirst" THEN "data" ELSE "main"] /\ fs' = fs \cup {<<base[i], "dir", base[i]>>}
            /\ Silent /\ UNCHANGED <<base, main, looked>>
Main(i) == /\ P(i, "main", IF Bug = "mainfirst" THEN "mkdir" ELSE "data")
           /\ IF main[i] \/ Bug = "mainalways" THEN Write("main.go", "main", "") ELSE UNCHANGED fs
           /\ Silent /\ UNCHANGED <<base, main, looked>>
Data(i) == /\ P(i, "data", "sm") /\ Write(base[i] \o "/data.go", "data", base[i]) /\ Silent /\ UNCHANGED <<base, main, looked>>
SMName(b) == IF b = "data" /\ Bug # "samefile" THEN "/sm.go" ELSE "/" \o b \o ".go"
Sm(i) == /\ P(i, "sm", "made") /\ Write(base[i] \o SMName(base[i]), "sm", base[i]) /\ Silent /\ UNCHANGED <<base, main, looked>>
Ret(i) == /\ pc[i] \in {"made", "fail"} /\ pc' = [pc EXCEPT ![i] = "over"]
          /\ Emit([k |-> "initret", j |-> i, ok |-> pc[i] = "made"]) /\ UNCHANGED <<base, main, fs, looked>>
Still == \A i \in I : pc[i] \in {"idle", "over"}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Look == /\ Still /\ ~looked /\ looked' = TRUE /\ UNCHANGED <<pc, base, main, fs>>
        /\ Emit([k |-> "look", files |-> ToSeq({ [r |-> f[2], b |-> f[3]] : f \in { g \in fs : g[2] # "dir" } }), lost |-> 0])
Env == (\E b \in Bases \ {""} : Pre(b)) \/ (\E i \in I, b \in Bases, m \in BOOLEAN : Call(i, b, m)) \/ Look
Internal == \E i \in I : Check(i) \/ Look0(i) \/ Mkdir(i) \/ Main(i) \/ Data(i) \/ Sm(i) \/ Ret(i)
Next == Internal \/ Env
Correct == bad = {}
Sane == Still => st.want \subseteq { [r |-> f[2], b |-> f[3]] : f \in fs }
=============================================================================

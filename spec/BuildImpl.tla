------------------------------- MODULE BuildImpl ------------------------------
(***************************************************************************)
(* How New makes Pipelines, step by step, for every combination of good and  *)
(* bad arguments, under the contract Pipe.  Bug selects wrong variants that  *)
(* TLC has to refute.                                                        *)
(***************************************************************************)
EXTENDS Pipe
CONSTANTS M, Bug      \* parallelism up to M
VARIABLES num, sm, opts,       \* arguments; opts: for every option, whether it is good
          pc, k, run, closed,  \* place, options applied or runners started, goroutines running, uses of the state machine
          st, bad
args == <<num, sm, opts>>
vars == <<args, pc, k, run, closed, st, bad>>
Good == num >= 1 /\ sm /\ \A i \in DOMAIN opts : opts[i]
Emit(e) == st' = Eff(st, e) /\ bad' = bad \cup Viol(st, e)
Silent == UNCHANGED <<st, bad>>
Done(ok, n, c) == Emit([k |-> "bnew", v |-> 0, ok |-> ok, good |-> Good, d |-> n, cl |-> c])

Init == /\ num \in -1..M /\ sm \in BOOLEAN /\ opts \in UNION { [1..n -> BOOLEAN] : n \in 0..2 }
        /\ pc = "check" /\ k = 0 /\ run = 0 /\ closed = 0 /\ bad = {} /\ st = InitState([pipes |-> <<>>])
Fail == pc' = "fail" /\ UNCHANGED <<args, k, run, closed>> /\ Silent
Goto(p) == pc' = p /\ UNCHANGED <<args, k, run, closed>> /\ Silent
Check == /\ pc = "check"
         /\ IF (num < 1 /\ ~(Bug = "zero" /\ num = 0)) \/ ~sm THEN Fail
            ELSE IF Bug = "demuxfirst" THEN pc' = "opts" /\ run' = 1 /\ UNCHANGED <<args, k, closed>> /\ Silent
            ELSE Goto("opts")
Opts == /\ pc = "opts"
        /\ IF k = Len(opts) THEN pc' = "demux" /\ k' = 0 /\ UNCHANGED <<args, run, closed>> /\ Silent
           ELSE IF ~opts[k + 1] /\ ~(Bug = "lastopt" /\ k + 1 < Len(opts)) THEN Fail
           ELSE k' = k + 1 /\ UNCHANGED <<args, pc, run, closed>> /\ Silent
Demux == /\ pc = "demux" /\ pc' = "runners" /\ run' = (IF Bug = "demuxfirst" THEN run ELSE run + 1) /\ UNCHANGED <<args, k, closed>> /\ Silent
Runners == /\ pc = "runners"
           /\ IF k >= num THEN Goto("ok") ELSE k' = k + 1 /\ run' = run + 1 /\ UNCHANGED <<args, pc, closed>> /\ Silent
\* The user closes what New returned: the runners, the demuxer and then the state machine end.
Close == /\ pc = "ok" /\ pc' = "end" /\ run' = 0 /\ closed' = (IF Bug = "noclose" THEN 0 ELSE 1) /\ Done(TRUE, 0, closed') /\ UNCHANGED <<args, k>>
Refuse == /\ pc = "fail" /\ pc' = "end" /\ closed' = (IF Bug = "closesm" /\ sm THEN 1 ELSE 0) /\ Done(FALSE, run, closed') /\ UNCHANGED <<args, k, run>>
Next == Check \/ Opts \/ Demux \/ Runners \/ Close \/ Refuse
Spec == Init /\ [][Next]_vars
Correct == bad = {}
Sane == pc = "end" => (Good <=> run = 0 /\ closed = 1)
=============================================================================

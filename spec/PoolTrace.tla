------------------------------ MODULE PoolTrace ------------------------------
(* Validation of recorded traces of real pools against the contract Pool.    *)
EXTENDS Pool, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, st
vars == <<tid, i, st>>
Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ st = InitState(Traces[tid].cfg)
Next == /\ i < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[i + 1]
               v == Viol(st, e) IN
             /\ st' = Eff(st, e)
             /\ IF v = {} THEN TRUE ELSE PrintT("VIOL|" \o ToString(Traces[tid].id) \o "|" \o ToString(i + 1) \o "|" \o ToString(v))
        /\ i' = i + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================

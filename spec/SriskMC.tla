------------------------------- MODULE SriskMC -------------------------------
(* Systems of N firms on a lattice of debt, equity and LRMES values: laws of *)
(* SRISK and its aggregate; each system is emitted as a scenario.            *)
EXTENDS Systemic, TLC, Json
CONSTANTS N, Firms, Ks
VARIABLES k, sys, done
vars == <<k, sys, done>>
Init == k \in Ks /\ sys = <<>> /\ done = FALSE
Enter == ~done /\ Len(sys) < N /\ \E f \in Firms : sys' = Append(sys, f) /\ UNCHANGED <<k, done>>
Emit == ~done /\ Len(sys) > 0 /\ PrintT("FRDS " \o ToJson(<<"SCEN", [k |-> k, sys |-> sys]>>)) /\ done' = TRUE /\ UNCHANGED <<k, sys>>
Next == Enter \/ Emit
Spec == Init /\ [][Next]_vars
S(f) == Srisk(k, f[1], f[2], f[3])
AsDocumented == \A i \in Idx(sys) :
    LET f == sys[i]
        lvg == RDiv(RAdd(f[1], f[2]), f[2])
    IN  RNear(S(f), RMul(f[2], RSub(RAdd(RMul(k, lvg), RMul(RSub(1, k), f[3])), 1)), 1, "1E-30")
AggregateLaws == LET a == Aggregate([i \in Idx(sys) |-> S(sys[i])]) IN
    /\ RGe(a, 0)
    /\ \A i \in Idx(sys) : RGe(a, S(sys[i]))
    /\ RGe(a, RSum([i \in Idx(sys) |-> S(sys[i])]))
=============================================================================

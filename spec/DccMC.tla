------------------------------- MODULE DccMC -------------------------------
(* The pseudo-correlation process on a lattice: series of N standardized    *)
(* residuals and (a, b); its states are correlation matrices.               *)
EXTENDS Dcc, TLC, Json
CONSTANTS N, Es, AB
VARIABLES a, b, z1, z2, q, t
vars == <<a, b, z1, z2, q, t>>
S == [1 .. N -> Es]
Init == /\ \E p \in AB : a = p[1] /\ b = p[2]
        /\ z1 \in S /\ z2 \in S
        /\ RGt(SVar(z1), 0) /\ RGt(SVar(z2), 0)
        /\ q = QFirst(z1, z2) /\ t = 1
Step == t < N /\ q' = QNext(a, b, QFirst(z1, z2), q, z1[t], z2[t]) /\ t' = t + 1 /\ UNCHANGED <<a, b, z1, z2>>
Emit == t = N /\ PrintT("FRDS " \o ToJson(<<"SCEN", [a |-> a, b |-> b, z1 |-> z1, z2 |-> z2]>>))
        /\ t' = N + 1 /\ UNCHANGED <<a, b, z1, z2, q>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
PositiveSemidefinite == /\ RGe(q[1], 0) /\ RGe(q[3], 0)
                        /\ RGe(RMul(RMul(q[1], q[3]), "1.0000000000000000001"), RSq(q[2]))
IsCorrelation == RIsFinite(RhoOf(q)) => RLe(RAbs(RhoOf(q)), "1.0000000000000000001")
ConstantWithoutDynamics == (REq(a, 0) /\ REq(b, 0)) => RNear(RhoOf(q), SCorr(z1, z2), 1, "1E-30")
Symmetric == LET p == QPathTo(IF t > N THEN N ELSE t, a, b, z2, z1) IN RNear(RhoOf(p[Len(p)]), RhoOf(q), 1, "1E-30")
=============================================================================

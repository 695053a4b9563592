------------------------------- MODULE LrmesMC -------------------------------
(* Every path of H periods over a lattice of innovations, from several       *)
(* starting states and parameters.                                           *)
EXTENDS Lrmes, TLC, Json
CONSTANTS H, Xs, Ys
VARIABLES k, h, inn, s
vars == <<k, h, inn, s>>
P(mu, om, al, ga, be) == [mu |-> mu, omega |-> om, alpha |-> al, gamma |-> ga, beta |-> be]
S0(fv, mv, fe, me, rho) == [fv |-> fv, mv |-> mv, fe |-> fe, me |-> me, rho |-> rho]
Configs ==
  <<[pf |-> P("0.1", "0.5", "0.1", "0.2", "0.6"), pm |-> P("-0.2", "0.3", "0.05", "0.3", "0.5"), a |-> "0.05", b |-> "0.9", qbar |-> "0.5", s0 |-> S0(4, 2, -1, 1, "0.4"), C |-> "-0.01"],
    [pf |-> P(0, 1, 0, 0, 0), pm |-> P(0, 4, 0, 0, 0), a |-> 0, b |-> 0, qbar |-> "-0.8", s0 |-> S0(1, 1, 0, 0, "-0.8"), C |-> 0],
    [pf |-> P(0, "0.5", "0.3", "0.4", "0.5"), pm |-> P(0, "0.5", "0.2", "1", "0.3"), a |-> "0.6", b |-> "0.4", qbar |-> "0.1", s0 |-> S0(9, "0.25", 6, "-1", "0.9"), C |-> "-0.03"],
    [pf |-> P(1, 2, "0.2", 0, "0.1"), pm |-> P("0.5", 1, "0.4", "0.2", "0.4"), a |-> "0.5", b |-> "0", qbar |-> "0.3", s0 |-> S0(1, 1, 1, -2, "0.3"), C |-> "0.02"]>>
K == Configs[k]
Init == k \in DOMAIN Configs /\ h = 0 /\ inn = <<>> /\ s = PathStart(Configs[k].s0)
Step == /\ h < H
        /\ \E x \in Xs, y \in Ys : inn' = Append(inn, <<x, y>>) /\ s' = PathNext(s, K.pf, K.pm, K.a, K.b, K.qbar, x, y)
        /\ h' = h + 1 /\ k' = k
Emit == /\ h = H
        /\ PrintT("FRDS " \o ToJson(<<"SCEN", [k |-> k, inn |-> inn]>>))
        /\ h' = H + 1 /\ UNCHANGED <<k, inn, s>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
VarianceAboveOmega == h > 0 => RGe(s.fv, K.pf.omega) /\ RGe(s.mv, K.pm.omega)
Correlated == RIsFinite(RhoOf(s.q)) => RLe(RAbs(RhoOf(s.q)), "1.000000001")
\* what a loss today does to tomorrow's variance: at least what a gain does
LossesRaiseVariance ==
    \A y \in Ys : RLt(y, 0) => RGe(NextVar(K.pm, y, s.mv), NextVar(K.pm, RNeg(y), s.mv))
\* innovations standardize the residuals
Standardized == h > 0 /\ RIsFinite(s.fz) => RNear(s.fz, RDiv(s.fe, RSqrt(s.fv)), 1, "1E-30") /\ RNear(s.mz, RDiv(s.me, RSqrt(s.mv)), 1, "1E-30")
=============================================================================

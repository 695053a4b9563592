---------------------------- MODULE SimulationMC ----------------------------
(* Firms on a lattice: the fit recovers asset value and volatility from      *)
(* equity value and volatility, and the laws of default and spreads.         *)
(* Emits the documented parameters of the simulation.                        *)
EXTENDS MertonFit, TLC, Json
CONSTANTS As, Sigmas, Rs, Ds, Ts
VARIABLES o, fit, done
vars == <<o, fit, done>>
Init == done = 0 /\ o \in [A: As, s: Sigmas, r: Rs, d: Ds, T: Ts] /\ fit = [ok |-> FALSE]
K0 == "0.7"
\* the errors of (A, s) against nothing are the negatives of what they imply
Implied == LET e == MertonErrors(o.A, o.s, "1", K0, o.r, o.d, o.T, "0") IN [E |-> RSub(1, e[1]), v |-> RNeg(e[2])]
Solve == /\ done = 0
         /\ \E m \in {Implied} : fit' = Fit(m.E, K0, o.r, o.d, o.T, RDiv(m.v, m.E))
         /\ done' = 1 /\ UNCHANGED o
Written(f) == [x \in DOMAIN f |-> RStr(f[x])]
Emit == /\ done = 1
        /\ PrintT("FRDS " \o ToJson(<<"SCEN", [p |-> Written(Sim), N |-> Cohorts0, fs |-> Written(SimFs), tableFs |-> Written(TableFs),
                                               tableF |-> Written(TableF), debt |-> RStr(GrownDebt(Sim.r, Sim.T)),
                                               single |-> Written(SingleCohortModel), borrower |-> Written(SingleBorrowerModel)]>>))
        /\ done' = 2 /\ UNCHANGED <<o, fit>>
Next == Solve \/ Emit
Spec == Init /\ [][Next]_vars
P(A, s) == DefaultProb(A, s, K0, o.r, o.d, o.T)
FitRecovers == done = 0 \/ ~fit.ok \/ (RNear(fit.A, o.A, 0, "1E-9") /\ RNear(fit.s, o.s, 0, "1E-9"))
FitFound == done = 0 \/ fit.ok \/ RLt(Implied.E, "0.01")
DefaultIsAProbability == RGt(P(o.A, o.s), 0) /\ RLt(P(o.A, o.s), 1)
DefaultFallsWithAssets == RLt(P(RMul(o.A, "1.01"), o.s), P(o.A, o.s))
SpreadIsPositive == RGt(MertonSpread(o.A, o.s, K0, o.r, o.d, o.T), 0)
\* debt that cannot lose more than everything, and whose loss given default is
\* at most all of it
SpreadIsBounded == RLt(MertonPut(o.A, o.s, K0, o.r, o.d, o.T), RMul(Riskless(K0, o.r, o.T), P(o.A, o.s)))
SpreadRisesWithRisk == RLt(MertonSpread(o.A, o.s, K0, o.r, o.d, o.T), MertonSpread(o.A, RMul(o.s, "1.1"), K0, o.r, o.d, o.T))
\* debt, equity and what is paid out before are the firm
BalanceSheet == RNear(RAdd(RAdd(RSub(Riskless(K0, o.r, o.T), MertonPut(o.A, o.s, K0, o.r, o.d, o.T)), Implied.E), 0), o.A, 1, "1E-25")
\* the simulation's own numbers
ASSUME RNear(Sim.D, "0.7", 0, "1E-2")
=============================================================================

------------------------------ MODULE MertonFit ------------------------------
(***************************************************************************)
(* Fitting the standard Merton model to equity data, and what the fit says *)
(* about default and credit spreads (Nagel and Purnanandam 2020, section   *)
(* 3: what an analyst finds who takes a bank's assets for a lognormal      *)
(* firm), and the parameters of their simulation.                          *)
(***************************************************************************)
EXTENDS ModMerton

\* ---- distance to default and spreads ------------------------------------
DistanceToDefault(A, s, D, r, d, T) ==
    RDiv(RAdd(RLn(RDiv(A, D)), RMul(RSub(RSub(r, d), RDiv(RSq(s), 2)), T)), RMul(s, RSqrt(T)))
DefaultProb(A, s, D, r, d, T) == RPhi(RNeg(DistanceToDefault(A, s, D, r, d, T)))
Riskless(D, r, T) == RMul(D, RExp(RNeg(RMul(r, T))))
\* yield in excess of the riskless rate of debt D worth B
Spread(D, B, r, T) == RDiv(RLn(RDiv(Riskless(D, r, T), B)), T)
MertonPut(A, s, D, r, d, T) == PutPrice([S |-> A, K |-> D, r |-> r, T |-> T, sigma |-> s, q |-> d])
MertonSpread(A, s, D, r, d, T) == Spread(D, RSub(Riskless(D, r, T), MertonPut(A, s, D, r, d, T)), r, T)

\* ---- the fit: Newton's method from the balance sheet and half the equity
\* volatility; the two equations have one solution, so where the method does
\* not lead to it the outcome is left open
NStep == "1E-18"
NTol == "1E-16"
RECURSIVE Newton(_, _, _, _, _, _, _, _, _)
Newton(A, s, n, E, D, r, d, T, sE) ==
    IF ~RIsFinite(A) \/ ~RIsFinite(s) \/ ~RGt(A, 0) \/ ~RGt(s, "1E-4") \/ n = 0 THEN [ok |-> FALSE, A |-> A, s |-> s]
    ELSE LET e == MertonErrors(A, s, E, D, r, d, T, sE)
         IN  IF RLt(RAbs(e[1]), NTol) /\ RLt(RAbs(e[2]), NTol) THEN [ok |-> TRUE, A |-> A, s |-> s]
             ELSE LET ea == MertonErrors(RAdd(A, NStep), s, E, D, r, d, T, sE)
                      es == MertonErrors(A, RAdd(s, NStep), E, D, r, d, T, sE)
                      a11 == RDiv(RSub(ea[1], e[1]), NStep)
                      a21 == RDiv(RSub(ea[2], e[2]), NStep)
                      a12 == RDiv(RSub(es[1], e[1]), NStep)
                      a22 == RDiv(RSub(es[2], e[2]), NStep)
                      det == RSub(RMul(a11, a22), RMul(a12, a21))
                      dA == RDiv(RSub(RMul(a22, e[1]), RMul(a12, e[2])), det)
                      ds == RDiv(RSub(RMul(a11, e[2]), RMul(a21, e[1])), det)
                      \* never more than half of the guess at once
                      half(x, step) == RClip(step, RNeg(RDiv(x, 2)), RDiv(x, 2))
                  IN  IF REq(det, 0) THEN [ok |-> FALSE, A |-> A, s |-> s]
                      ELSE Newton(RVal(RSub(A, half(A, dA))), RVal(RSub(s, half(s, ds))), n - 1, E, D, r, d, T, sE)
Fit(E, D, r, d, T, sE) == Newton(RVal(RAdd(E, Riskless(D, r, T))), RVal(RDiv(sE, 2)), 60, E, D, r, d, T, sE)

\* ---- the simulation -----------------------------------------------------
\* equal amounts of debt issued with each cohort, grown at the riskless rate
BookD == "0.63"
Cohorts0 == 10
GrownDebt(r, T) == RMul(BookD, RDiv(RSum([k \in 1 .. T |-> RExp(RMul(r, k))]), T))
Sim == [r |-> "0.01", T |-> 10, bookF |-> "0.66", H |-> 5, D |-> RMul(GrownDebt("0.01", 10), RExp("0.05")), rho |-> "0.5",
        ltv |-> "0.66", sig |-> "0.2", d |-> "0.005", y |-> "0.002", g |-> "0.5"]
\* factor values from lo in n steps of 0.05, in standard deviations of the
\* factor over ten years
FactorSteps(lo, n) == RSeq([k \in 1 .. n |-> RDiv(RAdd(lo, RMul("0.05", k - 1)), RMul("0.2", RSqrt(5)))])
SimFs == FactorSteps("-0.8", 33)
\* one cohort of borrowers (alternative 2), one borrower (alternative 3)
TableFs == FactorSteps("-2.6", 69)
TableF == RSeq([k \in 1 .. 105 |-> RAdd("0.4", RMul("0.01", k - 1))])
SingleCohortModel == [T |-> 5, rho |-> "0.5", sig |-> "0.2"]
SingleBorrowerModel == [T |-> 5, rho |-> "0.99", sig |-> RMul("0.2", RSqrt("0.5"))]
\* no shock: the aggregate asset value is closest to its riskless growth over
\* half a maturity; a shock moves it by eight steps of the factor
NoShock(mFt, p) ==
    LET off == RSeq([k \in Idx(mFt) |-> RAbs(RSub(mFt[k], RExp(RDiv(RMul(p.r, p.T), 2))))])
    IN  CHOOSE k \in Idx(off) : (\A i \in Idx(off) : RLe(off[k], off[i])) /\ (\A i \in 1 .. k - 1 : RLt(off[k], off[i]))
Shift == 8
=============================================================================

----------------------------- MODULE ModMertonMC -----------------------------
(***************************************************************************)
(* The loans of the modified Merton model on a lattice.  The closed forms  *)
(* are what they stand for: the payoff is the conditional expectation of   *)
(* min(face value, assets), and its discounted risk-neutral expectation    *)
(* over the common factor is the value of the loan.  Emits every loan.     *)
(***************************************************************************)
EXTENDS ModMerton, TLC, Json
CONSTANTS Faces, Xs, Rhos, Sigs, Ts, Rs, Ltvs
VARIABLES o, done
vars == <<o, done>>
Init == done = FALSE /\ o \in [F: Faces, x: Xs, rho: Rhos, sig: Sigs, T: Ts, r: Rs, ltv: Ltvs]
Emit == ~done /\ PrintT("FRDS " \o ToJson(<<"SCEN", o>>)) /\ done' = TRUE /\ o' = o
Next == Emit
Spec == Init /\ [][Next]_vars

Pay(x) == Payoff(o.F, x, o.rho, o.sig, o.T)
\* expectation of f over a standard normal, by the trapezoid rule on [-8, 8]
Step0 == "0.1"
E(f(_)) == RMul(RDiv(Step0, RSqrt(RMul(2, RPi))),
                RSum([k \in 1 .. 161 |-> LET z == RMul(k - 81, Step0) IN RMul(RExp(RDiv(RSq(z), -2)), f(z))]))
\* min has a kink: the rule is of second order there
IsExpectedMinimum == done => LET m(z) == RMin2(o.F, RExp(RAdd(o.x, RMul(IdioSd(o.rho, o.sig, o.T), z))))
                     IN  RNear(Pay(o.x), E(m), 0, "0.002")
\* no more than the face value or the expected asset value, and not negative
AssetMean == RExp(RAdd(o.x, RDiv(RSq(IdioSd(o.rho, o.sig, o.T)), 2)))
Bounded == done => RGt(Pay(o.x), 0) /\ RLe(Pay(o.x), o.F) /\ RLe(Pay(o.x), RMul(AssetMean, RAdd(1, "1E-30")))
Monotone == done =>
            /\ RGe(Pay(RAdd(o.x, "0.1")), Pay(o.x))
            /\ RGe(Payoff(RMul(o.F, "1.1"), o.x, o.rho, o.sig, o.T), Pay(o.x))
\* proportional to face value and assets together: what makes roll-over at
\* constant loan-to-value a matter of scale
Homogeneous == done => RNear(Payoff(RMul(o.F, 3), RAdd(o.x, RLn(3)), o.rho, o.sig, o.T), RMul(3, Pay(o.x)), 0, "1E-30")
\* averaged over the factor the payoff is worth the loan (smooth integrand: 1E-12)
Drifted(z) == RAdd(o.x, RAdd(RMul(RSub(o.r, RDiv(RSq(o.sig), 2)), o.T), RMul(RMul(o.sig, RSqrt(RMul(o.rho, o.T))), z)))
WorthTheLoan == done => LET m(z) == Pay(Drifted(z))
                IN  RNear(RMul(RExp(RNeg(RMul(o.r, o.T))), E(m)), LoanValue(o.F, RExp(o.x), o.r, o.T, o.sig, 0), 0, "1E-12")
\* the promised yield makes the loan worth what was lent
P == [r |-> o.r, T |-> o.T, bookF |-> o.F, sig |-> o.sig, ltv |-> o.ltv, d |-> "0.005", rho |-> o.rho]
FairYield == done => LET mu == PromisedYield(P)
             IN  /\ RLe(RAbs(Excess(P, mu)), "1E-20")
                 /\ RNear(LoanValue(FaceAt(P, mu), RExp(Ival(P)), o.r, o.T, o.sig, "0.005"), o.F, 0, "1E-18")
                 /\ RGe(mu, o.r)
\* the inversion is exact at the model's own equity value and volatility
Inverts == done => LET op == [S |-> RExp(o.x), K |-> o.F, r |-> o.r, T |-> o.T, sigma |-> o.sig, q |-> 0]
               e == MertonErrors(op.S, o.sig, CallPrice(op), o.F, o.r, 0, o.T, EquityVol(op))
           IN  RLe(RAbs(e[1]), "1E-30") /\ RLe(RAbs(e[2]), "1E-25")
\* the smoother on n = 12, w = 4: constants stay, straight lines move by half a step
SmoothLaws == done =>
              /\ \A i \in 1 .. 12 : REq(Smooth([j \in 1 .. 12 |-> o.F], 4)[i], o.F)
              /\ \A i \in 1 .. 12 : RNear(Smooth([j \in 1 .. 12 |-> RAdd(o.x, RMul(o.F, j))], 4)[i], RAdd(o.x, RMul(o.F, RAdd(i, "0.5"))), 1, "1E-30")
=============================================================================

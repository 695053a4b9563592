---------------------------- MODULE OptionPrice ----------------------------
(***************************************************************************)
(* European options (Black-Scholes-Merton with continuous yield) and       *)
(* Merton's model of equity as a call on the firm's assets.                *)
(* o = [S, K, r, T, sigma, q]                                              *)
(***************************************************************************)
EXTENDS Num
D1(o) == RDiv(RAdd(RLn(RDiv(o.S, o.K)), RMul(RAdd(RSub(o.r, o.q), RDiv(RSq(o.sigma), 2)), o.T)), RMul(o.sigma, RSqrt(o.T)))
D2(o) == RSub(D1(o), RMul(o.sigma, RSqrt(o.T)))
DiscS(o) == RMul(o.S, RExp(RNeg(RMul(o.q, o.T))))      \* spot net of yield
DiscK(o) == RMul(o.K, RExp(RNeg(RMul(o.r, o.T))))      \* present value of the strike
CallPrice(o) == RSub(RMul(DiscS(o), RPhi(D1(o))), RMul(DiscK(o), RPhi(D2(o))))
PutPrice(o)  == RSub(RMul(DiscK(o), RPhi(RNeg(D2(o)))), RMul(DiscS(o), RPhi(RNeg(D1(o)))))
\* equity volatility implied by Merton's model
EquityVol(o) == RDiv(RMul(RMul(o.S, o.sigma), RPhi(D1(o))), CallPrice(o))
\* put implied by a CDS spread in basis points for debt with face B, maturity T and risky value D
CdsPut(B, r, T, spread, D) ==
    RMul(RSub(1, RExp(RNeg(RMul(RMul(RDiv(spread, 10000), RSub(RDiv(B, D), 1)), T)))), RMul(B, RExp(RNeg(RMul(r, T)))))
=============================================================================

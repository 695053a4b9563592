-------------------------------- MODULE CcaMC --------------------------------
(* Firms on a lattice of asset value, volatility, rate, maturity and spread:   *)
(* laws of Merton's model; each firm's equity value and volatility are emitted *)
(* as a scenario whose solution is known.                                       *)
EXTENDS OptionPrice, TLC, Json
CONSTANTS Vs, Sigmas, Rs, Ts, Spreads
VARIABLES o, spread, done
vars == <<o, spread, done>>
Init == done = FALSE /\ o \in [S: Vs, K: {"100"}, r: Rs, T: Ts, sigma: Sigmas, q: {"0"}] /\ spread \in Spreads
Emit == /\ ~done
        /\ PrintT("FRDS " \o ToJson(<<"SCEN", [V |-> o.S, sigma |-> o.sigma, B |-> o.K, r |-> o.r, T |-> o.T, spread |-> spread]>>))
        /\ done' = TRUE /\ UNCHANGED <<o, spread>>
Next == Emit
Spec == Init /\ [][Next]_vars
Debt == RSub(DiscK(o), PutPrice(o))
EquityIsLevered == RGe(RAdd(EquityVol(o), "1E-30"), o.sigma)
BalanceSheet == RNear(RAdd(CallPrice(o), Debt), o.S, 1, "1E-30")
RiskyDebtIsWorthLess == RGt(Debt, 0) /\ RLe(Debt, RAdd(DiscK(o), "1E-30"))
GuaranteeGrowsWithSpread == RGe(CdsPut(o.K, o.r, o.T, RMul(2, spread), Debt), CdsPut(o.K, o.r, o.T, spread, Debt)) \/ RLt(RDiv(o.K, Debt), 1)
=============================================================================

------------------------------ MODULE OptionMC ------------------------------
(* A lattice of options: no-arbitrage laws of the specified prices, also       *)
(* between neighbouring options; every option is emitted as a scenario.        *)
EXTENDS OptionPrice, TLC, Json
CONSTANTS Ss, Ks, Rs, Ts, Vs, Qs
VARIABLES o, done
vars == <<o, done>>
Init == done = FALSE /\ o \in [S: Ss, K: Ks, r: Rs, T: Ts, sigma: Vs, q: Qs]
Emit == ~done /\ PrintT("FRDS " \o ToJson(<<"SCEN", o>>)) /\ done' = TRUE /\ o' = o
Next == Emit
Spec == Init /\ [][Next]_vars
Eps == "1E-30"
Parity == RNear(RSub(CallPrice(o), PutPrice(o)), RSub(DiscS(o), DiscK(o)), RAdd(DiscS(o), DiscK(o)), Eps)
Bounds == /\ RGe(RAdd(CallPrice(o), Eps), RMax2(RSub(DiscS(o), DiscK(o)), 0)) /\ RLe(CallPrice(o), DiscS(o))
          /\ RGe(RAdd(PutPrice(o), Eps), RMax2(RSub(DiscK(o), DiscS(o)), 0)) /\ RLe(PutPrice(o), DiscK(o))
InStrike == LET p == [o EXCEPT !.K = RMul(o.K, "1.1")] IN RLe(CallPrice(p), RAdd(CallPrice(o), Eps)) /\ RGe(RAdd(PutPrice(p), Eps), PutPrice(o))
InVolatility == LET p == [o EXCEPT !.sigma = RMul(o.sigma, "1.1")] IN RGe(RAdd(CallPrice(p), Eps), CallPrice(o)) /\ RGe(RAdd(PutPrice(p), Eps), PutPrice(o))
Homogeneous == LET p == [o EXCEPT !.S = RMul(o.S, 7), !.K = RMul(o.K, 7)] IN RNear(CallPrice(p), RMul(7, CallPrice(o)), DiscS(p), Eps)
\* a put is a call in the other numeraire
Dual == LET p == [S |-> o.K, K |-> o.S, r |-> o.q, T |-> o.T, sigma |-> o.sigma, q |-> o.r] IN RNear(CallPrice(p), PutPrice(o), RAdd(DiscS(o), DiscK(o)), Eps)
=============================================================================

------------------------------- MODULE VarMC -------------------------------
(***************************************************************************)
(* The volatility process on a lattice of parameters, residuals and        *)
(* bounds: TLC explores every path of up to N periods, checks the          *)
(* consequences C01/C02 state, and emits every complete path as a scenario *)
(* for the real code.                                                      *)
(***************************************************************************)
EXTENDS Garch, TLC, Json
CONSTANTS N, Params, Resids, Backcasts, Bounds
VARIABLES p, bc, es, bs, s
vars == <<p, bc, es, bs, s>>
\* p: parameters; es: residuals so far; bs: bounds so far; s: variances so far

Init == /\ p \in Params
        /\ bc \in Backcasts
        /\ es = <<>>
        /\ bs \in {<<b>> : b \in Bounds}
        /\ s = <<RStr(FirstVar(p, bc))>>
Advance(e, b) ==
    /\ Len(s) < N
    /\ ~(REq(p.alpha, 0) /\ Overflows(RSq(e)))       \* 0 * infinity is outside the domain
    /\ es' = Append(es, e)
    /\ bs' = Append(bs, b)
    /\ s' = Append(s, RStr(Clamp(NextVar(p, e, s[Len(s)]), b[1], b[2])))
    /\ UNCHANGED <<p, bc>>
Emit == /\ Len(s) = N
        /\ PrintT("FRDS " \o ToJson(<<"SCEN", [omega |-> p.omega, alpha |-> p.alpha, gamma |-> p.gamma, beta |-> p.beta,
                                    backcast |-> bc, resids |-> Append(es, "0"), bounds |-> bs]>>))
        /\ s' = Append(s, "0") /\ UNCHANGED <<p, bc, es, bs>>
Next == (\E e \in Resids, b \in Bounds : Advance(e, b)) \/ Emit
Spec == Init /\ [][Next]_vars

k == Len(es) + 1       \* current period
Bounded == k > 1 => /\ RGe(s[k], bs[k][1])
                    /\ RLe(s[k], RAdd(bs[k][2], 1000))
                    /\ RLe(s[k], bs[k][2]) \/ RNear(RSub(s[k], bs[k][2]),
                          RLn(RDiv(NextVar(p, es[k - 1], s[k - 1]), bs[k][2])), "1E+6", "1E-12") \/ RGt(NextVar(p, es[k-1], s[k-1]), DMax)
\* a loss never lowers the next variance relative to an equal gain
LossesWeigh == k > 1 => RGe(Clamp(NextVar(p, RNeg(RAbs(es[k-1])), s[k-1]), bs[k][1], bs[k][2]),
                            Clamp(NextVar(p, RAbs(es[k-1]), s[k-1]), bs[k][1], bs[k][2]))
\* the bound keeps the order of variances
ClampMonotone == k > 1 => LET a == NextVar(p, es[k-1], s[k-1]) IN
                          RLe(Clamp(a, bs[k][1], bs[k][2]), Clamp(RMul("1.5", a), bs[k][1], bs[k][2]))
                          \/ RGt(a, "1E+308")
\* unconditional variance is the fixed point inside the bounds
FixedPoint == RLt(Persistence(p), 1) =>
              LET u == RDiv(p.omega, RSub(1, Persistence(p))) IN
              RNear(FirstVar(p, u), u, 1, "1E-30")
\* what losses add over equal gains is gamma times the squared residual
NewsImpact == k > 1 => LET x == RAbs(es[k-1])
                           up == NextVar(p, x, s[k-1])
                           down == NextVar(p, RNeg(x), s[k-1])
                       IN ~REq(x, 0) => RNear(RSub(down, up), RMul(p.gamma, RSq(x)), up, "1E-30")
\* over shocks of plus and minus one standard deviation the variance persists
Persists == k > 1 => LET v == s[k-1]
                         d == RSqrt(v)
                         avg == RDiv(RAdd(NextVar(p, d, v), NextVar(p, RNeg(d), v)), 2)
                     IN RNear(avg, RAdd(p.omega, RMul(Persistence(p), v)), avg, "1E-30")
=============================================================================

------------------------------ MODULE SesTrace ------------------------------
(***************************************************************************)
(* C15.  in : [mes, lvg, ses: training sample, calls: <<[version, mes,     *)
(*            lvg]>>]                                                      *)
(*       out: results[i] = [exc, value], shifted, scaled: values with      *)
(*            ex-post returns shifted by a constant and scaled             *)
(* A sample is in the domain if it determines the coefficients: the        *)
(* regressors are not nearly collinear and b + c does not nearly cancel.   *)
(***************************************************************************)
EXTENDS CallTrace, Systemic
K(k) == Slopes(In(k).mes, In(k).lvg, In(k).ses)
Size3(k) == Len(In(k).mes)
Amplification(s, call) == RDiv(RAdd(RAbs(RMul(s.b, call.mes)), RAbs(RMul(s.c, call.lvg))), RAbs(RAdd(s.b, s.c)))
Cancels(s) == RLe(RAbs(RAdd(s.b, s.c)), RMul("1E-6", RAdd(RAbs(s.b), RAbs(s.c))))
\* sensitivity of the coefficients to rounding: collinearity, and a fit that is small against the data
SpreadRatio(x) == RDiv(SMaxAbs(x), SStd(x))
Rounding(k, s) == RMul(RMul("1E-12", s.cond), RMul(RMul(SpreadRatio(In(k).mes), SpreadRatio(In(k).lvg)),
                  RAdd(1, RDiv(SMaxAbs(In(k).ses), RAdd(RAbs(RMul(s.b, SStd(In(k).mes))), RAbs(RMul(s.c, SStd(In(k).lvg))))))))
SesClauses(k, i) ==
    LET call == Calls(k)[i]
        r == Result(k, i)
        s == K(k)
        tol == Rounding(k, s)
        factor == RAdd(1, RDiv(RAdd(RAbs(s.b), RAbs(s.c)), RAbs(RAdd(s.b, s.c))))
        scale == RMul(factor, RAdd(Amplification(s, call), RAdd(RAbs(call.mes), RAbs(call.lvg))))
        \* a coefficient that is small in units of the other regressor
        units == RAdd(1, RMax2(RDiv(SStd(In(k).mes), SStd(In(k).lvg)), RDiv(SStd(In(k).lvg), SStd(In(k).mes))))
    IN  IF call.version # "BFLV2012" THEN Must("other versions are rejected", r.exc # "")
        ELSE IF r.exc # "" THEN MustD("returns", FALSE, r.exc)
        ELSE IF Cancels(s) \/ RGt(RMul(tol, RMul(factor, units)), "1E-3") THEN {}
        ELSE MustNear("fitted loading on MES and leverage", r.value, Ses(s, call.mes, call.lvg), RMul(scale, units), RAdd("1E-12", tol))
             \cup MustNear("unchanged when a constant is added to the ex-post returns", Out(k).shifted[i], r.value, RMul(scale, units), RAdd("1E-10", RMul(10, tol)))
             \cup MustNear("unchanged when the ex-post returns are scaled", Out(k).scaled[i], r.value, RMul(scale, units), RAdd("1E-12", tol))
SesSituations(k) == Tag("well determined", ~Cancels(K(k)) /\ RLe(Rounding(k, K(k)), "1E-9")) \o Tag("three firms", Size3(k) = 3) \o Tag("negative loading", RLt(K(k).b, 0) \/ RLt(K(k).c, 0)) \o Tag("coefficients cancel", Cancels(K(k)))
=============================================================================

-------------------------------- MODULE Lrmes --------------------------------
(***************************************************************************)
(* Long-run marginal expected shortfall: a simulation path of firm and     *)
(* market under GJR-GARCH variances and DCC correlations.                  *)
(* Returns are log returns in percent.                                     *)
(***************************************************************************)
EXTENDS Dcc

\* state of a path; fe, me residuals, fz, mz standardized ones, fs, ms summed returns
PathStart(s0) ==
    [fv |-> s0.fv, mv |-> s0.mv, fe |-> s0.fe, me |-> s0.me,
     fz |-> RDiv(s0.fe, RSqrt(s0.fv)), mz |-> RDiv(s0.me, RSqrt(s0.mv)),
     q |-> <<1, s0.rho, 1>>, fs |-> 0, ms |-> 0]
\* one period: qbar the correlation of historical innovations, x, y firm and market innovation
PathNext(s, pf, pm, a, b, qbar, x, y) ==
    LET fv  == NextVar(pf, s.fe, s.fv)
        mv  == NextVar(pm, s.me, s.mv)
        q   == QNext(a, b, <<1, qbar, 1>>, s.q, s.fz, s.mz)
        rho == RhoOf(q)
        fz  == RAdd(RMul(rho, y), RMul(RSqrt(RSub(1, RSq(rho))), x))
        fe  == RMul(RSqrt(fv), fz)
        me  == RMul(RSqrt(mv), y)
    IN  [fv |-> fv, mv |-> mv, fe |-> fe, me |-> me, fz |-> fz, mz |-> RVal(y), q |-> q,
         fs |-> RAdd(s.fs, RAdd(pf.mu, fe)), ms |-> RAdd(s.ms, RAdd(pm.mu, me))]
Compound(percent) == RSub(RExp(RDiv(percent, 100)), 1)
Systemic(s, C) == RLt(Compound(s.ms), C)
FirmReturn(s) == Compound(s.fs)
\* a path too close to the threshold for floating point to tell
Tie(s, C) == ~REq(s.ms, 0) /\ RLe(RAbs(RSub(Compound(s.ms), C)), "1E-9")
=============================================================================

-------------------------------- MODULE Garch --------------------------------
(***************************************************************************)
(* The univariate GARCH(1,1) and GJR-GARCH(1,1) volatility processes of    *)
(* frds.algorithms, as transition rules over one period, and the smoothing *)
(* that initialises and bounds them.                                       *)
(*                                                                         *)
(* A GARCH model is the GJR model with gamma = 0; parameters are records   *)
(* [omega, alpha, gamma, beta].                                            *)
(***************************************************************************)
EXTENDS Num

\* persistence of the process: the expected weight of past variance
Persistence(p) == RSum(<<p.alpha, RDiv(p.gamma, 2), p.beta>>)

\* variance of the first period
FirstVar(p, backcast) == RAdd(p.omega, RMul(Persistence(p), backcast))

\* what a residual e and a variance s of one period imply for the next
NextVar(p, e, s) ==
    RSum(<<p.omega,
           RMul(p.alpha, RSq(e)),
           IF RLt(e, 0) THEN RMul(p.gamma, RSq(e)) ELSE 0,
           RMul(p.beta, s)>>)
\* magnitude of the terms of NextVar, for rounding tolerances
NextVarScale(p, e, s) ==
    RSum(<<RAbs(p.omega), RMul(RAdd(RAbs(p.alpha), RAbs(p.gamma)), RSq(e)), RMul(RAbs(p.beta), RAbs(s))>>)

\* limits of a binary64
DMax == "1.7976931348623157E+308"
Overflows(x) == RGt(x, DMax)

\* the bound of one period
Clamp(s, lower, upper) ==
    LET v == RMax2(lower, s) IN
    IF ~RGt(v, upper) THEN v
    ELSE IF Overflows(RDiv(v, upper)) THEN RAdd(upper, 1000)   \* also if v is finite
    ELSE RAdd(upper, RLn(RDiv(v, upper)))

\* exponential smoothing of squared residuals
SmoothNext(lam, v, e) == RAdd(RMul(lam, v), RMul(RSub(1, lam), RSq(e)))
Decay == "0.94"
BackcastWindow == 75
Backcast(resids) ==
    LET tau == IF Len(resids) < BackcastWindow THEN Len(resids) ELSE BackcastWindow
        w == [i \in 1 .. tau |-> RIPow(Decay, i - 1)]
    IN  RDiv(RDot(w, SSq(SSub(resids, 1, tau))), RSum(w))

GlobalLower(resids) == RDiv(SVar(resids), 100000000)
GlobalUpper(resids) == RMul(10000000, RAdd(1, RSq(SMaxAbs(resids))))
BoundFactor == 1000000
\* bounds of a period whose smoothed variance is v
LowerOf(v, glo, ghi) == RDiv(RClip(v, glo, ghi), BoundFactor)
UpperOf(v, glo, ghi) == RMul(RClip(v, glo, ghi), BoundFactor)

(***************************************************************************)
(* Whole paths (folds of the rules above), for specifications that compose *)
(* them.                                                                   *)
(***************************************************************************)
RECURSIVE VarPathTo(_, _, _, _, _)
VarPathTo(t, p, resids, backcast, bounds) ==     \* <<sigma2[1], ..., sigma2[t]>>
    IF t = 1 THEN <<FirstVar(p, backcast)>>
    ELSE LET s == VarPathTo(t - 1, p, resids, backcast, bounds) IN
         Append(s, Clamp(NextVar(p, resids[t - 1], s[t - 1]), bounds[t][1], bounds[t][2]))
VarPath(p, resids, backcast, bounds) == VarPathTo(Len(resids), p, resids, backcast, bounds)

RECURSIVE SmoothTo(_, _, _, _)
SmoothTo(t, lam, resids, init) ==
    IF t = 1 THEN <<RVal(init)>>
    ELSE LET s == SmoothTo(t - 1, lam, resids, init) IN Append(s, SmoothNext(lam, s[t - 1], resids[t - 1]))
Smooth(lam, resids, init) == SmoothTo(Len(resids), lam, resids, init)

VarBounds(resids) ==
    LET v == Smooth(Decay, resids, Backcast(resids))
        lo == GlobalLower(resids)
        hi == GlobalUpper(resids)
    IN  [t \in Idx(resids) |-> <<LowerOf(v[t], lo, hi), UpperOf(v[t], lo, hi)>>]

\* Gaussian log-likelihood of residuals given conditional variances
LogL(resids, sigma2) ==
    RMul("-0.5", RSum([t \in Idx(resids) |->
        RSum(<<RLn(RMul(2, RPi)), RLn(sigma2[t]), RDiv(RSq(resids[t]), sigma2[t])>>)]))
=============================================================================

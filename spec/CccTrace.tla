------------------------------ MODULE CccTrace ------------------------------
(***************************************************************************)
(* C07: constant-correlation likelihood and fit.                           *)
(*   in : [op = "ll",    e1, s1, e2, s2, rho]            out: [ll, swapped] *)
(*   in : [op = "model", r1, r2, p1, p2, rho]            out: [ll, swapped] *)
(*   in : [op = "fit",   r1, r2]                                           *)
(*   out: [success, p1, p2, rho, ll, u1, u2: univariate estimates,         *)
(*         z: residuals and variances of the univariate fits]              *)
(* "ll" is consumed period by period; the others in one step.              *)
(***************************************************************************)
EXTENDS TraceBase, Dcc
VARIABLES c, t, acc, mag, bad
vars == <<c, t, acc, mag, bad>>
Op(k) == In(k).op
Init == c \in 1 .. NCases /\ t = 0 /\ acc = "0" /\ mag = "0" /\ bad = {}

Admissible(p, who) ==
    Must("omega bound of " \o who, RGe(p.omega, "0.999999E-6"))
    \cup Must("alpha bounds of " \o who, RGe(p.alpha, "-1E-12") /\ RLe(p.alpha, "1.000000000001"))
    \cup Must("beta bounds of " \o who, RGe(p.beta, "-1E-12") /\ RLe(p.beta, "1.000000000001"))
    \cup Must("stationarity of " \o who, RLe(RAdd(p.alpha, p.beta), "1.00001"))
FitClauses(k) ==
    LET o == Out(k)
        at == CccModelLogL(o.p1, o.p2, o.rho, In(k).r1, In(k).r2)
        z1 == Standardize(o.z[1].resids, o.z[1].sigma2)
        z2 == Standardize(o.z[2].resids, o.z[2].sigma2)
        rho0 == RClip(SCorr(z1, z2), RNeg(RhoLimit), RhoLimit)
        start == CccModelLogL(o.u1, o.u2, rho0, In(k).r1, In(k).r2)
    IN  Admissible(o.p1, "first asset") \cup Admissible(o.p2, "second asset")
        \cup Must("correlation within 0.99", RLe(RAbs(o.rho), "0.990000000001"))
        \cup MustNear("reported log-likelihood is the one at the estimates", o.ll, at, Len(In(k).r1), "1E-8")
        \cup MustD("at least the likelihood of the two-step start", RGe(o.ll, RSub(start, "0.00001")),
                   RStr(o.ll) \o " below " \o RStr(start))
ModelClauses(k) ==
    LET i == In(k) IN
    MustNear("log-likelihood at the parameters", Out(k).ll, CccModelLogL(i.p1, i.p2, i.rho, i.r1, i.r2), Len(i.r1), "1E-8")
    \cup MustNear("swapping the assets swaps the parameters", Out(k).swapped, Out(k).ll, Len(i.r1), "1E-8")

T(k) == IF Op(k) = "ll" THEN Len(In(k).e1) ELSE 0
Period ==
    /\ Op(c) = "ll" /\ t < T(c) /\ t >= 0
    /\ LET i == In(c)
           n == t + 1
           x == RDiv(i.e1[n], RSqrt(i.s1[n]))
           y == RDiv(i.e2[n], RSqrt(i.s2[n]))
       IN  \E term \in {CccTerm(x, y, i.s1[n], i.s2[n], i.rho)} : acc' = RAdd(acc, term) /\ mag' = RAdd(mag, RAbs(term))
    /\ t' = t + 1 /\ UNCHANGED <<c, bad>>
Finish ==
    /\ t = T(c)
    /\ LET all == IF ~Returned(c) THEN MustD("returns", FALSE, Out(c).exc)
                  ELSE CASE Op(c) = "ll" -> MustNear("log-likelihood of the series", Out(c).ll, acc, mag, "1E-9")
                                            \cup MustNear("symmetric in the assets", Out(c).swapped, Out(c).ll, mag, "1E-9")
                         [] Op(c) = "model" -> ModelClauses(c)
                         [] OTHER -> IF Out(c).success THEN FitClauses(c)
                                     ELSE Must("a failed fit reports no log-likelihood", RIsNaN(Out(c).ll))
       IN Report(c, all, <<Op(c)>> \o (IF Op(c) = "fit" /\ Returned(c)
            THEN Tag("failed fit", ~Out(c).success)
                 \o Tag("negative correlation", Out(c).success /\ RLt(Out(c).rho, 0))
                 \o Tag("correlation at its bound", Out(c).success /\ RGe(RAbs(Out(c).rho), "0.9899999")) ELSE <<>>))
    /\ t' = -1 /\ UNCHANGED <<c, acc, mag, bad>>
Next == Period \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE FitTrace ------------------------------
(***************************************************************************)
(* C04: what a univariate fit leaves behind is one consistent state: an    *)
(* admissible parameter vector, the residuals and variances it implies,    *)
(* and their log-likelihood.                                               *)
(*   in : [model, zero_mean, returns]                                      *)
(*   out: [success, params: [mu, omega, alpha, gamma, beta, ll],           *)
(*         resids, sigma2, returned]                                       *)
(* One step per period; v is the smoothed variance that bounds the period. *)
(***************************************************************************)
EXTENDS TraceBase, Garch
VARIABLES c, t, v, lim, ll, bad
vars == <<c, t, v, lim, ll, bad>>

R(k) == In(k).returns
T(k) == Len(R(k))
P(k) == Out(k).params
Tol == "1E-9"
Centre(k) == IF In(k).zero_mean THEN R(k) ELSE SShift(R(k), RNeg(SMean(R(k))))
GJR(k) == In(k).model = "gjr"

Init == c \in 1 .. NCases /\ t = 0 /\ v = "0" /\ lim = <<>> /\ ll = "0" /\ bad = {}

Fields == {"mu", "omega", "alpha", "beta", "ll"}
FailedClauses(k) ==
    Must("a failed fit reports no parameters",
         \A f \in Fields \cup (IF GJR(k) THEN {"gamma"} ELSE {}) : RIsNaN(P(k)[f]))
AdmissibleClauses(k) ==
    LET lo == IF GJR(k) THEN "1E-6" ELSE 0
        in01(x) == RGe(x, RSub(lo, "1E-12")) /\ RLe(x, "1.000000000001")
    IN  Must("omega at least its lower bound", RGe(P(k).omega, "0.999999999E-6"))
        \cup Must("alpha within bounds", in01(P(k).alpha))
        \cup Must("beta within bounds", in01(P(k).beta))
        \cup Must("gamma within bounds", GJR(k) => in01(P(k).gamma))
        \cup Must("stationary", RLe(Persistence(P(k)), "1.00001"))
        \cup Must("mu is 0 for a zero-mean model", In(k).zero_mean => REq(P(k).mu, 0))
        \cup Must("mu is a number", RIsFinite(P(k).mu))
        \cup Must("one residual and variance per return", Len(Out(k).resids) = T(k) /\ Len(Out(k).sigma2) = T(k))
        \cup Must("fit returns the parameters it keeps", Out(k).returned = "same")

Begin ==
    /\ t = 0 /\ c' = c
    /\ IF ~Returned(c)
       THEN t' = T(c) + 1 /\ bad' = MustD("fit returns", FALSE, Out(c).exc) /\ UNCHANGED <<v, lim, ll>>
       ELSE IF ~Out(c).success
       THEN t' = T(c) + 1 /\ bad' = FailedClauses(c) /\ UNCHANGED <<v, lim, ll>>
       ELSE LET a == AdmissibleClauses(c) IN
            /\ bad' = a
            /\ IF <<"one residual and variance per return", "">> \in a
               THEN t' = T(c) + 1 /\ UNCHANGED <<v, lim, ll>>
               ELSE /\ t' = 1 /\ ll' = "0"
                    /\ v' = Backcast(Centre(c))
                    /\ lim' = <<GlobalLower(Centre(c)), GlobalUpper(Centre(c)), SMean(Centre(c)), Backcast(Centre(c))>>
Period ==
    /\ t > 0 /\ t <= T(c)
    /\ LET e == Out(c).resids[t]
           s == Out(c).sigma2[t]
           mean == IF In(c).zero_mean THEN 0 ELSE RSub(R(c)[t], e)
           prevE == IF t > 1 THEN Out(c).resids[t - 1] ELSE 0
           prevS == IF t > 1 THEN Out(c).sigma2[t - 1] ELSE 0
           want == IF t = 1 THEN FirstVar(P(c), lim[4])
                   ELSE Clamp(NextVar(P(c), prevE, prevS), LowerOf(v, lim[1], lim[2]), UpperOf(v, lim[1], lim[2]))
       IN  /\ bad' = bad
                \cup MustNear("residuals are returns minus mu", e, RSub(R(c)[t], P(c).mu), RAdd(RAbs(R(c)[t]), RAbs(P(c).mu)), "1E-12")
                \cup MustNear("variances are those at the estimates", s, want, 0, Tol)
           /\ ll' = RSub(ll, RMul("0.5", RSum(<<RLn(RMul(2, RPi)), RLn(s), RDiv(RSq(e), s)>>)))
           /\ v' = IF t < T(c) THEN SmoothNext(Decay, v, IF In(c).zero_mean THEN R(c)[t] ELSE RSub(R(c)[t], SMean(R(c)))) ELSE v
    /\ t' = t + 1 /\ UNCHANGED <<c, lim>>
Finish ==
    /\ t = T(c) + 1
    /\ LET all == bad \cup (IF Returned(c) /\ Out(c).success
                            THEN MustNear("reported log-likelihood", P(c).ll, ll, T(c), "1E-9")
                            ELSE {})
       IN Report(c, all, IF ~Returned(c) THEN <<"raised">> ELSE IF ~Out(c).success THEN <<"failed fit">> ELSE
              <<In(c).model>> \o Tag("zero mean", In(c).zero_mean)
              \o Tag("omega at its bound", RLe(P(c).omega, "1.001E-6"))
              \o Tag("integrated", RGe(Persistence(P(c)), "0.9999"))
              \o Tag("no ARCH effect", RLe(P(c).alpha, "1.1E-6")))
    /\ t' = -1 /\ UNCHANGED <<c, v, lim, ll, bad>>
Next == Begin \/ Period \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE DccFitTrace ----------------------------
(***************************************************************************)
(* C09: the two-step DCC likelihood and estimation.                        *)
(*   in : [op |-> "ll", a, b, e1, s1, e2, s2, l1, l2]   out: [ll]          *)
(*        [op |-> "fit", model, how, r1, r2]                               *)
(*   out: [success, p1, p2, a, b, ll, u: <<[p, ll, success, resids,        *)
(*         sigma2], ...>>]   u: each series estimated on its own           *)
(* The pseudo-correlations advance one period per step, accumulating the   *)
(* correlation component.                                                  *)
(***************************************************************************)
EXTENDS TraceBase, Dcc
VARIABLES c, t, z, q, q1, sum, lim, bad
vars == <<c, t, z, q, q1, sum, lim, bad>>
Fit(k) == In(k).op = "fit"
A(k) == IF Fit(k) THEN Out(k).a ELSE In(k).a
B(k) == IF Fit(k) THEN Out(k).b ELSE In(k).b
L1(k) == IF Fit(k) THEN Out(k).u[1].ll ELSE In(k).l1
L2(k) == IF Fit(k) THEN Out(k).u[2].ll ELSE In(k).l2
T(k) == IF Fit(k) THEN Len(In(k).r1) ELSE Len(In(k).e1)
Z(k, i) == IF Fit(k) THEN Standardize(Out(k).u[i].resids, Out(k).u[i].sigma2)
           ELSE IF i = 1 THEN Standardize(In(k).e1, In(k).s1) ELSE Standardize(In(k).e2, In(k).s2)
View == <<c, t>>
Init == c \in 1 .. NCases /\ t = 0 /\ z = <<>> /\ q = <<>> /\ q1 = <<>> /\ sum = 0 /\ lim = FALSE /\ bad = {}
PFields(k) == {"mu", "omega", "alpha", "beta"} \cup (IF In(k).model = "gjr" THEN {"gamma"} ELSE {})
SameParams(k, p, u) == \A f \in PFields(k) : RNear(p[f], u[f], "1E-3", "1E-10")
FitClauses(k) ==
    Must("first series' estimates are its univariate ones", SameParams(k, Out(k).p1, Out(k).u[1].p))
    \cup Must("second series' estimates are its univariate ones", SameParams(k, Out(k).p2, Out(k).u[2].p))
    \cup Must("univariate estimations succeeded", Out(k).u[1].success /\ Out(k).u[2].success)
    \cup Must("a and b in [0, 1]", RGe(A(k), "-1E-12") /\ RLe(A(k), "1.000000000001") /\ RGe(B(k), "-1E-12") /\ RLe(B(k), "1.000000000001"))
    \cup Must("a + b at most 1", RLe(RAdd(A(k), B(k)), "1.00001"))
    \cup Must("fit returns the parameters it keeps", Out(k).returned = "same")
Consume(k) == Returned(k) /\ (Fit(k) => Out(k).success /\ Out(k).u[1].success /\ Out(k).u[2].success)
Begin ==
    /\ t = 0 /\ c' = c /\ sum' = sum /\ lim' = lim
    /\ bad' = IF ~Returned(c) THEN MustD("returns", FALSE, Out(c).exc)
              ELSE IF ~Fit(c) THEN {}
              ELSE IF Out(c).success THEN FitClauses(c)
              ELSE Must("a failed estimation reports no correlation parameters", RIsNaN(A(c)) /\ RIsNaN(B(c)) /\ RIsNaN(Out(c).ll))
    /\ IF ~Consume(c) THEN t' = T(c) + 1 /\ UNCHANGED <<z, q, q1>>
       ELSE \E z1 \in {Z(c, 1)}, z2 \in {Z(c, 2)} :
            t' = 1 /\ z' = <<z1, z2>> /\ q' = QFirst(z1, z2) /\ q1' = QFirst(z1, z2)
Period ==
    /\ t > 0 /\ t <= T(c)
    /\ sum' = RAdd(sum, DccTerm(z[1][t], z[2][t], RhoOf(q)))
    /\ lim' = (lim \/ RGt(RAbs(RhoOf(q)), RhoLimit))
    /\ q' = IF t < T(c) THEN QNext(A(c), B(c), q1, q, z[1][t], z[2][t]) ELSE q
    /\ t' = t + 1 /\ UNCHANGED <<c, z, q1, bad>>
Finish ==
    /\ t = T(c) + 1
    /\ Report(c, bad \cup (IF Consume(c)
                           THEN MustNear("log-likelihood composes the univariate ones and the correlation component",
                                         Out(c).ll, RSum(<<L1(c), L2(c), sum>>), T(c), "1E-8") ELSE {}),
              IF ~Returned(c) THEN <<"raised">> ELSE IF ~Consume(c) THEN <<"failed fit">>
              ELSE IF Fit(c) THEN <<In(c).model \o " " \o In(c).how>>
                   \o Tag("a = 0", RLe(A(c), "1E-8")) \o Tag("a + b = 1", RGe(RAdd(A(c), B(c)), "0.9999"))
              ELSE <<"likelihood">> \o Tag("correlation limited", lim))
    /\ t' = -1 /\ UNCHANGED <<c, z, q, q1, sum, lim, bad>>
Next == Begin \/ Period \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

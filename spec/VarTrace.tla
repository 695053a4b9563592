------------------------------ MODULE VarTrace ------------------------------
(***************************************************************************)
(* C01/C02: recorded variance paths of the real code are behaviours of the *)
(* volatility process of Garch.tla, one period per step.                   *)
(*   in : [kind, omega, alpha, gamma, beta, resids, backcast, bounds]      *)
(*   out: [sigma2]                                                         *)
(* kind "path" is a conditional variance path, kind "forecast" a forecast: *)
(* backcast is then the variance of the first period, there are no bounds, *)
(* and the output starts with the second period.  Kind "long" repeats the   *)
(* residuals and bounds for n periods; windows[w] are the variances from   *)
(* the period at[w] (counted from 0) on.                                   *)
(***************************************************************************)
EXTENDS TraceBase, Garch
VARIABLES c,      \* recorded execution
          t,      \* periods consumed
          bad     \* violated clauses so far
vars == <<c, t, bad>>

P(k) == In(k)     \* record with omega, alpha, gamma, beta
T(k) == Len(In(k).resids)
Tol == "1E-9"

Init == /\ c \in 1 .. NCases
        /\ t = 0
        /\ bad = {}

Forecast(k) == In(k).kind = "forecast"
Long(k) == In(k).kind = "long"
\* the variance of period i as recorded
Obs(k, i) == IF Forecast(k) THEN IF i = 1 THEN In(k).backcast ELSE Out(k).sigma2[i - 1]
             ELSE Out(k).sigma2[i]
Shape(k) == Returned(k) /\ Len(Out(k).sigma2) = IF Long(k) THEN 1 ELSE IF Forecast(k) THEN T(k) - 1 ELSE T(k)

\* the recorded windows of a long series
Cyclic(k, i) == (i % T(k)) + 1
Windows(k) ==
    Must("a variance per residual", Out(k).sigma2[1] = In(k).n)
    \cup UNION {UNION {LET v == Out(k).windows[w]
                          i == In(k).at[w] + j      \* the period of v[j + 1]
                          e == In(k).resids[Cyclic(k, i - 1)]
                          b == In(k).bounds[Cyclic(k, i)]
                      IN  MustNear("variance of a period far on", v[j + 1], Clamp(NextVar(P(k), e, v[j]), b[1], b[2]), NextVarScale(P(k), e, v[j]), Tol)
                      : j \in 1 .. Len(Out(k).windows[w]) - 1} : w \in Idx(In(k).at)}
    \cup Must("all windows", \A w \in Idx(In(k).at) : Len(Out(k).windows[w]) = 4)
    \cup MustNear("first variance", Out(k).windows[1][1], FirstVar(P(k), In(k).backcast), 1, Tol)

\* the first period, or an execution that is not a path at all
First ==
    /\ t = 0
    /\ IF Shape(c) /\ Long(c) THEN t' = T(c) /\ bad' = Windows(c)
       ELSE IF Shape(c)
       THEN /\ t' = 1
            /\ bad' = IF Forecast(c) THEN {} ELSE
                      MustNear("first variance", Obs(c, 1), FirstVar(P(c), In(c).backcast),
                               NextVarScale(P(c), 0, RMul(2, In(c).backcast)), Tol)
       ELSE /\ t' = T(c)
            /\ bad' = MustD("returns a variance per residual", FALSE, Out(c).exc)
    /\ c' = c

\* one period: from the recorded previous variance to the recorded next one
Period ==
    /\ t > 0 /\ t < T(c)
    /\ LET e == In(c).resids[t]
           s == Obs(c, t)
           got == Obs(c, t + 1)
           raw == NextVar(P(c), e, s)
           scale == NextVarScale(P(c), e, s)
       IN IF Forecast(c)
          THEN bad' = bad \cup MustNear("period forecast", got, IF Overflows(raw) THEN "Infinity" ELSE raw, scale, Tol)
          ELSE LET lo == In(c).bounds[t + 1][1]
                   hi == In(c).bounds[t + 1][2]
                   want == Clamp(raw, lo, hi)
               IN bad' = bad \cup MustNear("period variance", got, want, RMin2(scale, RMax2(RAbs(hi), RAbs(want))), Tol)
                     \cup Must("at least the lower bound", RGe(got, lo))
                     \cup Must("exceeds the upper bound at most logarithmically",
                               RLe(got, RMul(RAdd(RMax2(hi, lo), 1000), "1.000000001")))
    /\ t' = t + 1 /\ c' = c

Situations(k) ==
    LET b == In(k).bounds
        n == T(k)
        raw(i) == NextVar(P(k), In(k).resids[i], Obs(k, i))
    IN  Tag("lower bound binds", ~Forecast(k) /\ \E i \in 1 .. n - 1 : RLt(raw(i), b[i + 1][1]))
        \o Tag("upper bound binds", ~Forecast(k) /\ \E i \in 1 .. n - 1 : RGt(raw(i), b[i + 1][2]))
        \o Tag("forecast", Forecast(k))
        \o Tag("infinite variance", \E i \in 1 .. n - 1 : Overflows(raw(i)))
        \o Tag("one period", n = 1)
        \o Tag("negative residual", \E i \in 1 .. n - 1 : RLt(In(k).resids[i], 0))
        \o Tag("zero residual", \E i \in 1 .. n - 1 : REq(In(k).resids[i], 0))

Finish ==
    /\ t = T(c) /\ t > 0
    /\ Report(c, bad, IF Shape(c) /\ Long(c) THEN <<"long series">> ELSE IF Shape(c) THEN Situations(c) ELSE <<>>)
    /\ t' = -1 /\ UNCHANGED <<c, bad>>

Next == First \/ Period \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

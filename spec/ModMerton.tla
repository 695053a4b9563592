------------------------------ MODULE ModMerton ------------------------------
(***************************************************************************)
(* The modified Merton model of Nagel and Purnanandam (2020): a bank whose *)
(* assets are cohorts of defaultable loans.                                *)
(* p = [r, T, bookF, H, D, rho, ltv, sig, d, y, g]: rate, loan maturity,   *)
(* amount of a new loan, maturity and face value of the bank's debt,       *)
(* borrowers' correlation, loan-to-value, volatility and depreciation of   *)
(* their assets, payout rate, probability of a bailout.                    *)
(***************************************************************************)
EXTENDS OptionPrice

\* ---- building blocks ----------------------------------------------------
\* Expected payoff of a portfolio of loans with face value F given the common
\* factor: the log asset value of a borrower is normal with mean x and
\* variance (1 - rho) sig^2 T, and he pays min(F, asset value).
IdioSd(rho, sig, T) == RMul(sig, RMul(RSqrt(T), RSqrt(RSub(1, rho))))
Payoff(F, x, rho, sig, T) ==
    LET s == IdioSd(rho, sig, T)
        a == RDiv(RSub(RLn(F), x), s)
    IN  IF REq(s, 0) THEN RMin2(F, RExp(x))
        ELSE RAdd(RMul(RExp(RAdd(x, RDiv(RSq(s), 2))), RPhi(RSub(a, s))), RMul(F, RPhi(RNeg(a))))

\* Value of a single loan: riskless less the put given to the borrower.
LoanValue(F, A, r, T, sig, d) ==
    LET o == [S |-> A, K |-> F, r |-> r, T |-> T, sigma |-> sig, q |-> d] IN RSub(DiscK(o), PutPrice(o))
YieldError(mu, F, ival, sig, T, r, d) == RSub(mu, RDiv(RLn(RDiv(F, LoanValue(F, RExp(ival), r, T, sig, d))), T))

\* Centred moving average of w neighbours in the interior, straight lines at
\* both edges.  Positions are 1 .. n; w is even, so the window of i is
\* i - w/2 + 1 .. i + w/2.
MovingMean(x, w, i) == RDiv(RSum(SSub(x, i - w \div 2 + 1, i + w \div 2)), w)
Smooth(x, w) ==
    LET n == Len(x)
        h == w \div 2
        m == RSeq([i \in 1 .. n - w |-> MovingMean(x, w, i + h)])       \* the interior h+1 .. n-h
        lo == RSub(m[2], m[1])
        hi == RSub(m[n - w], m[n - w - 1])
    IN  [i \in 1 .. n |-> IF i <= h THEN RSub(m[1], RMul(h + 1 - i, lo))
                          ELSE IF i <= n - h THEN m[i - h]
                          ELSE RAdd(m[n - w], RMul(i - (n - h), hi))]

\* Errors of a guess (A, s) of asset value and volatility against equity value
\* E and volatility sE; A and s below zero count as zero and are penalised.
Penalty == 9999999
MertonErrors(A, s, E, D, r, d, T, sE) ==
    LET a == RMax2(A, 0)
        v == RMax2(s, 0)
        o == [S |-> a, K |-> D, r |-> r, T |-> T, sigma |-> v, q |-> d]
        held == RSub(1, RExp(RNeg(RMul(d, T))))              \* share of the assets paid out before T
        \* no asset value: out of the money; no volatility: the forward decides
        deep == REq(a, 0) \/ REq(v, 0)
        inTheMoney == RGt(a, 0) /\ RGt(DiscS(o), DiscK(o))
        call == IF deep THEN (IF inTheMoney THEN RSub(DiscS(o), DiscK(o)) ELSE 0) ELSE CallPrice(o)
        equity == RAdd(call, RMul(a, held))
        vol == IF deep THEN 0 ELSE RMul(RMul(RAdd(RMul(RSub(1, held), RPhi(D1(o))), held), RDiv(a, E)), v)
        pen == RMul(Penalty, RAdd(IF RLt(s, 0) THEN RSq(s) ELSE 0, IF RLt(A, 0) THEN RSq(A) ELSE 0))
    IN  <<RAdd(RSub(E, equity), pen), RAdd(RSub(sE, vol), pen)>>

\* ---- the promised yield: the loan is worth what was lent -----------------
Ival(p) == RSub(RLn(p.bookF), RLn(p.ltv))                     \* log asset value of a borrower at origination
FaceAt(p, mu) == RMul(p.bookF, RExp(RMul(mu, p.T)))
Excess(p, mu) == YieldError(mu, FaceAt(p, mu), Ival(p), p.sig, p.T, p.r, p.d)
RECURSIVE Secant(_, _, _, _, _, _)
Secant(p, a, fa, b, fb, n) ==
    IF n = 0 \/ REq(fa, fb) \/ RLt(RAbs(RSub(a, b)), "1E-25") THEN b
    ELSE LET m == RVal(RSub(b, RMul(fb, RDiv(RSub(b, a), RSub(fb, fa))))) IN Secant(p, b, fb, m, RVal(Excess(p, m)), n - 1)
PromisedYield(p) ==
    LET a == RAdd(p.r, "0.01")
        b == RAdd(p.r, "0.011")
    IN  Secant(p, a, Excess(p, a), b, Excess(p, b), 20)

\* ---- factor paths -------------------------------------------------------
\* w: one row of standard normal shocks per path, N steps per loan maturity
Step(p, N) == RDiv(p.T, N)
FactorSd(p) == RMul(RSqrt(p.rho), p.sig)
Drift(p, N) == RMul(RSub(RSub(p.r, p.d), RDiv(RSq(p.sig), 2)), Step(p, N))
StepsToDebt(p, N) == RDiv(RMul(p.H, N), p.T)
\* log factor growth of a path between steps a and b
Growth(p, N, row, a, b) ==
    RAdd(RMul(b - a, Drift(p, N)), RMul(RMul(FactorSd(p), RSqrt(Step(p, N))), RSum(SSub(row, a + 1, b))))
\* growth until the valuation date, where shocks are replaced by their
\* expectation (the level of asset values grows at r - d)
Expected(p, N, steps) == RMul(steps, RAdd(Drift(p, N), RMul(RDiv(RMul(p.rho, RSq(p.sig)), 2), Step(p, N))))
\* the three blocks of factor values: as given, and a tenth of a standard
\* deviation up and down for the numerical derivatives
DStep == 10
Bump(p, G, k) == IF k <= G THEN 0 ELSE IF k <= 2 * G THEN RDiv(FactorSd(p), DStep) ELSE RNeg(RDiv(FactorSd(p), DStep))
Shock(p, fs, k, share) ==
    RAdd(RMul(RMul(fs[((k - 1) % Len(fs)) + 1], RMul(FactorSd(p), RSqrt(p.T))), share), Bump(p, Len(fs), k))

\* ---- one cohort ---------------------------------------------------------
\* Everything is a sequence over (factor value k, path i), paths running fastest.
Cells(fs, w) == 3 * Len(fs) * Len(w)
KOf(w, c) == ((c - 1) \div Len(w)) + 1
IOf(w, c) == ((c - 1) % Len(w)) + 1
\* ties of asset values are those that agree to nine digits
Round9(x) == LET n == RFloor(x)
                 k == RFloor(RAdd(RMul(RSub(x, n), 1000000000), "0.5"))
             IN  RAdd(n, RDiv(k, 1000000000))
\* how far from the point where the ninth digit changes, in units of that digit
RoundingMargin(x) == LET y == RAdd(RMul(RSub(x, RFloor(x)), 1000000000), "0.5")
                         f == RSub(y, RFloor(y))
                     IN  RMin2(f, RSub(1, f))
\* expected payoff given the asset value: local averaging along its order
Conditional(asset, payoff, w) ==
    LET order == RArgSort([c \in Idx(asset) |-> Round9(asset[c])])
        s == Smooth([c \in Idx(order) |-> payoff[order[c]]], w)
        rank == RArgSort(order)                              \* the inverse permutation
    IN  [c \in Idx(asset) |-> s[rank[c]]]
Window(n) == n \div 20

\* cohort j = 0 .. N-1, issued j steps after the first; its loans mature j
\* steps after the valuation date.  At debt maturity (HN steps after the
\* valuation date) those with j < HN have been rolled over, at the same
\* loan-to-value and hence the same promised yield.
CohortAge(N, HN, j) == IF j <= HN THEN HN - j ELSE N - (j - HN)
Cohort(p, F, N, HN, fs, w, j) ==
    LET cells == 1 .. Cells(fs, w)
        ival == Ival(p)
        before == Expected(p, N, N - j)
        share == RDiv(N - j, N)
        sh == RSeq([k \in 1 .. 3 * Len(fs) |-> Shock(p, fs, k, share)])
        toMaturity == RSeq([i \in Idx(w) |-> Growth(p, N, w[i], N, N + j)])
        toDebt == RSeq([i \in Idx(w) |-> Growth(p, N, w[i], N, N + HN)])
        first == RSeq([c \in cells |-> Payoff(F, RAdd(RAdd(RAdd(before, toMaturity[IOf(w, c)]), sh[KOf(w, c)]), ival), p.rho, p.sig, p.T)])
        jensen == RExp(RMul(RDiv(RMul(RSub(1, p.rho), RSq(p.sig)), 2), RMul(p.T, RDiv(CohortAge(N, HN, j), N))))
        rolled == j < HN
        \* a rolled-over loan is L1/bookF standard loans on borrowers worth bookF/ltv each
        scale == IF rolled THEN RSeq([c \in cells |-> RDiv(first[c], p.bookF)]) ELSE [c \in cells |-> 1]
        second == IF rolled THEN RSeq([i \in Idx(w) |-> Payoff(F, RAdd(Growth(p, N, w[i], N + j, 2 * N + j), ival), p.rho, p.sig, p.T)]) ELSE <<>>
        sinceRoll == IF rolled THEN RSeq([i \in Idx(w) |-> Growth(p, N, w[i], N + j, N + HN)]) ELSE <<>>
        asset == RSeq([c \in cells |-> RMul(RExp(RAdd(IF rolled THEN sinceRoll[IOf(w, c)]
                                                      ELSE RAdd(RAdd(before, toDebt[IOf(w, c)]), sh[KOf(w, c)]), ival)), jensen)])
        payoff == IF rolled THEN [c \in cells |-> second[IOf(w, c)]] ELSE first
        remaining == RMul(IF rolled THEN j - HN + N ELSE j - HN, Step(p, N))
        disc == RExp(RNeg(RMul(p.r, remaining)))
        cond == Conditional(asset, payoff, Window(Len(asset)))
    IN  [L |-> RSeq([c \in cells |-> RMul(RMul(cond[c], scale[c]), disc)]),
         A |-> asset,
         face |-> RSeq([c \in cells |-> RMul(IF rolled THEN RMul(first[c], RDiv(F, p.bookF)) ELSE F, disc)]),
         now |-> RSeq([k \in 1 .. 3 * Len(fs) |-> RMul(RExp(RAdd(RAdd(before, sh[k]), ival)),
                       RExp(RMul(RDiv(RMul(RSub(1, p.rho), RSq(p.sig)), 2), RMul(p.T, share))))])]

\* a bank with one cohort, issued at the valuation date
SingleCohort(p, F, N, HN, fs, w) ==
    LET cells == 1 .. Cells(fs, w)
        ival == Ival(p)
        sh == RSeq([k \in 1 .. 3 * Len(fs) |-> Shock(p, fs, k, 1)])
        payoff == RSeq([c \in cells |-> Payoff(F, RAdd(RAdd(Growth(p, N, w[IOf(w, c)], 0, N), sh[KOf(w, c)]), ival), p.rho, p.sig, p.T)])
        asset == RSeq([c \in cells |-> RMul(RExp(RAdd(RAdd(Growth(p, N, w[IOf(w, c)], 0, HN), sh[KOf(w, c)]), ival)),
                                            RExp(RMul(RDiv(RMul(RSub(1, p.rho), RSq(p.sig)), 2), p.H)))])
        disc == RExp(RNeg(RMul(p.r, RSub(p.T, p.H))))
        cond == Conditional(asset, payoff, Window(Len(asset)))
    IN  [L |-> RSeq([c \in cells |-> RMul(cond[c], disc)]), A |-> asset, face |-> RSeq([c \in cells |-> RMul(F, disc)]),
         now |-> RSeq([k \in 1 .. 3 * Len(fs) |-> RExp(RAdd(sh[k], ival))])]

\* ---- the bank -----------------------------------------------------------
\* At debt maturity the bank pays out, then its debt holders get min(D, what
\* is left); equity is the remainder (with the payout).
AfterPayout(p, l) == RMul(l, RExp(RNeg(RMul(p.y, p.H))))
Debt(p, l) == RMin2(p.D, AfterPayout(p, l))
EquityAt(p, l) == RSub(l, Debt(p, l))
Bailout(p, l) == RMul(p.g, RMax2(RSub(p.D, AfterPayout(p, l)), 0))
Defaults(p, l) == ~RGt(AfterPayout(p, l), p.D)
\* present value of the average over the paths of factor value k
Present(p, m, k, s) == RMul(RDiv(RSum(SSub(s, (k - 1) * m + 1, k * m)), m), RExp(RNeg(RMul(p.r, p.H))))
Vol(s, G, k) == RMul(RDiv(DStep, 2), RSub(RLn(s[G + k]), RLn(s[2 * G + k])))
=============================================================================

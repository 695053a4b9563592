------------------------------ MODULE Systemic ------------------------------
(***************************************************************************)
(* The systemic-risk measures that are functions of their data.            *)
(***************************************************************************)
EXTENDS Num, FiniteSets

(* ---- SRISK: capital shortfall in a crisis ---- *)
Srisk(k, D, W, lrmes) == RSub(RMul(k, D), RMul(RSub(1, k), RMul(W, RSub(1, lrmes))))
SriskScale(k, D, W, lrmes) == RAdd(RAbs(RMul(k, D)), RMul(RMul(RAdd(1, RAbs(k)), RAbs(W)), RAdd(2, RAbs(lrmes))))
Aggregate(s) == RSum([i \in Idx(s) |-> RMax2(s[i], 0)])

(* ---- absorption ratio ---- *)
\* sample covariances (n - 1) of series given as rows
CovMatrix(x) == [i \in Idx(x) |-> [j \in Idx(x) |-> RMul(SCov(x[i], x[j]), RDiv(Len(x[i]), Len(x[i]) - 1))]]
Trace(m) == RSum([i \in Idx(m) |-> m[i][i]])
\* eigenvalues of symmetric matrices, by a certificate: unit vectors v[i], orthogonal, with m v[i] = l[i] v[i]
IsEigenSystem(m, l, v, tol) ==
    /\ Len(l) = Len(m) /\ Len(v) = Len(m)
    /\ \A i \in Idx(m) : \A j \in Idx(m) :
          /\ RLe(RAbs(RSub(RDot(m[j], v[i]), RMul(l[i], v[i][j]))), RMul(tol, Trace(m)))
          /\ RLe(RAbs(RSub(RDot(v[i], v[j]), IF i = j THEN 1 ELSE 0)), tol)
\* how many eigenvalues a fraction asks for: to the nearest, halves up
CountOf(fraction, n) == RFloor(RAdd(RMul(fraction, n), "0.5"))
\* the counts floating point may arrive at (several only next to a half it cannot represent)
Counts(fraction, n) ==
    LET x == RMul(fraction, n)
        k == RFloor(x)
        d == RSub(RSub(x, k), "0.5")
    IN  IF ~REq(d, 0) /\ RLe(RAbs(d), RMul("1E-14", n)) THEN {k, k + 1} ELSE {CountOf(fraction, n)}
TopSum(l, k) == LET s == SSorted(l) IN RSum([i \in 1 .. k |-> s[Len(s) + 1 - i]])
Absorption(l, k) == RDiv(TopSum(l, k), RSum(l))

(* ---- marginal expected shortfall ---- *)
\* linearly interpolated quantile
Quantile(s, q) ==
    LET o == SSorted(s)
        h == RMul(Len(s) - 1, q)
        i == RFloor(h)
        f == RSub(h, i)
    IN  IF i + 2 > Len(s) THEN o[Len(s)] ELSE RAdd(o[i + 1], RMul(f, RSub(o[i + 2], o[i + 1])))
DaysBelow(m, thr) == {t \in Idx(m) : RLt(m[t], thr)}
MeanOver(f, days) == RDiv(RSum([t \in Idx(f) |-> IF t \in days THEN f[t] ELSE 0]), Cardinality(days))
Mes(f, m, q) == LET d == DaysBelow(m, Quantile(m, q)) IN IF d = {} THEN "NaN" ELSE MeanOver(f, d)

(* ---- systemic expected shortfall ---- *)
\* least squares on a constant and two regressors, by the centred normal equations
Slopes(x, y, z) ==
    LET sxx == SVar(x)
        syy == SVar(y)
        sxy == SCov(x, y)
        sxz == SCov(x, z)
        syz == SCov(y, z)
        det == RSub(RMul(sxx, syy), RSq(sxy))
    IN  [b |-> RDiv(RSub(RMul(syy, sxz), RMul(sxy, syz)), det),
         c |-> RDiv(RSub(RMul(sxx, syz), RMul(sxy, sxz)), det),
         cond |-> RDiv(RMul(sxx, syy), det)]
Ses(k, mes, lvg) == RDiv(RAdd(RMul(k.b, mes), RMul(k.c, lvg)), RAdd(k.b, k.c))

(* ---- distress insurance premium ---- *)
\* number of banks whose correlated normal return is below its default point:
\* l is the lower Cholesky factor of the correlations, x independent normals
Defaults(l, prob, x) ==
    LET d(i) == RLt(RPhi(RSum([j \in 1 .. i |-> RMul(l[i][j], x[j])])), prob[i])
    IN  Cardinality({i \in Idx(prob) : d(i)})
\* a default point too close for floating point to tell
DefaultTie(l, prob, x) ==
    \E i \in Idx(prob) : RLe(RAbs(RSub(RPhi(RSum([j \in 1 .. i |-> RMul(l[i][j], x[j])])), prob[i])), RMul("1E-9", prob[i]))
\* Cholesky factor, row by row
RECURSIVE CholRow(_, _, _, _)
CholRow(m, i, done, row) ==     \* row: the entries of row i found so far
    LET j == Len(row) + 1 IN
    IF j = i THEN Append(row, RSqrt(RSub(m[i][i], RSum([t \in 1 .. i - 1 |-> RSq(row[t])]))))
    ELSE CholRow(m, i, done, Append(row, RDiv(RSub(m[i][j], RSum([t \in 1 .. j - 1 |-> RMul(row[t], done[j][t])])), done[j][j])))
RECURSIVE CholTo(_, _)
CholTo(m, i) == IF i = 0 THEN <<>> ELSE LET done == CholTo(m, i - 1) IN Append(done, CholRow(m, i, done, <<>>))
Cholesky(m) == CholTo(m, Len(m))
\* the level of a loss, in percentage points of one bank, rounded up
Level(loss) == -RFloor(RNeg(RMul(100, loss)))
LevelTie(loss) == LET x == RMul(100, loss) IN RLe(RAbs(RSub(x, RFloor(RAdd(x, "0.5")))), "1E-9")
\* expected loss of the levels from the threshold on: freq[k] is the probability of k defaults,
\* losses[k][j] the total loss of draw j given k defaults, pct the threshold in percentage points
DipOf(freq, losses, pct) ==
    LET nb == Len(losses)
        m == Len(losses[1])
        part(k) == RDiv(RSum([j \in 1 .. m |-> LET v == Level(losses[k][j]) IN IF RGe(v, RSub(RMul(pct, nb), "1E-8")) THEN v ELSE 0]), 100 * m)
    IN  RSum([k \in 1 .. nb |-> RMul(freq[k], part(k))])
=============================================================================

--------------------------------- MODULE Dcc ---------------------------------
(***************************************************************************)
(* Bivariate GARCH of frds.algorithms: constant (CCC) and dynamic (DCC)    *)
(* conditional correlations of two standardized residual series.           *)
(***************************************************************************)
EXTENDS Garch

Standardize(resids, sigma2) == RSeq([t \in Idx(resids) |-> RDiv(resids[t], RSqrt(sigma2[t]))])

(* the pseudo-correlation process q = <<q11, q12, q22>> *)
QFirst(z1, z2) == <<1, SCorr(z1, z2), 1>>
QNext(a, b, qbar, q, x, y) ==     \* x, y: standardized residuals of the period q belongs to
    LET w == RSub(RSub(1, a), b)
        step(i, u) == RSum(<<RMul(w, qbar[i]), RMul(a, u), RMul(b, q[i])>>)
    IN  <<step(1, RSq(x)), step(2, RMul(x, y)), step(3, RSq(y))>>
RhoOf(q) == RDiv(q[2], RSqrt(RMul(q[1], q[3])))

RECURSIVE QPathTo(_, _, _, _, _)
QPathTo(t, a, b, z1, z2) ==
    IF t = 1 THEN <<QFirst(z1, z2)>>
    ELSE LET s == QPathTo(t - 1, a, b, z1, z2) IN Append(s, QNext(a, b, s[1], s[t - 1], z1[t - 1], z2[t - 1]))
RhoPath(a, b, z1, z2) == LET q == QPathTo(Len(z1), a, b, z1, z2) IN [t \in Idx(q) |-> RhoOf(q[t])]

(* log-likelihoods *)
QuadForm(x, y, rho) == RDiv(RSub(RAdd(RSq(x), RSq(y)), RMul(2, RMul(rho, RMul(x, y)))), RSub(1, RSq(rho)))
\* bivariate normal log-density of residuals with variances v1, v2 and correlation rho
CccTerm(x, y, v1, v2, rho) ==
    RMul("-0.5", RSum(<<RMul(2, RLn(RMul(2, RPi))),
                        RLn(RMul(RMul(v1, v2), RSub(1, RSq(rho)))),
                        QuadForm(x, y, rho)>>))
CccLogL(e1, s1, e2, s2, rho) ==
    LET z1 == Standardize(e1, s1)
        z2 == Standardize(e2, s2)
    IN  RSum([t \in Idx(e1) |-> CccTerm(z1[t], z2[t], s1[t], s2[t], rho)])

RhoLimit == "0.99"
\* correlation component of the two-step DCC log-likelihood
DccTerm(x, y, rho) ==
    LET r == RClip(rho, RNeg(RhoLimit), RhoLimit) IN
    RMul("-0.5", RSum(<<RNeg(RAdd(RSq(x), RSq(y))), RLn(RSub(1, RSq(r))), QuadForm(x, y, r)>>))
DccComponent(a, b, z1, z2) ==
    LET rho == RhoPath(a, b, z1, z2) IN RSum([t \in Idx(z1) |-> DccTerm(z1[t], z2[t], rho[t])])

\* the log-likelihood of a bivariate CCC model at a parameter vector, from returns
CccModelLogL(p1, p2, rho, r1, r2) ==
    LET e1 == [t \in Idx(r1) |-> RSub(r1[t], p1.mu)]
        e2 == [t \in Idx(r2) |-> RSub(r2[t], p2.mu)]
        s1 == VarPath(p1, e1, Backcast(e1), VarBounds(e1))
        s2 == VarPath(p2, e2, Backcast(e2), VarBounds(e2))
    IN  CccLogL(e1, s1, e2, s2, rho)
=============================================================================

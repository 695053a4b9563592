----------------------------- MODULE MertonTrace -----------------------------
(***************************************************************************)
(* C28.  in : [calls: <<[fn, ...]>>]                                       *)
(*   payoff: F (sequence; one element = a scalar), f, ival, rho, sig, T    *)
(*   smooth: x, w        yield: mu, F, ival, sig, T, r, d                  *)
(*   merton: A, s, E, D, r, d, T, sE                                       *)
(*       out: results[i] = [exc, value (sequence)]                         *)
(***************************************************************************)
EXTENDS CallTrace, ModMerton
FaceOf(q, j) == q.F[IF Len(q.F) = 1 THEN 1 ELSE j]
OnePayoff(q, got, j, tol) ==
    LET x == RAdd(q.f[j], q.ival)
        ea == RExp(RAdd(x, RDiv(RSq(IdioSd(q.rho, q.sig, q.T)), 2)))
    IN  MustNear("loan payoff", got, Payoff(FaceOf(q, j), x, q.rho, q.sig, q.T), RAdd(ea, FaceOf(q, j)), tol)
        \cup Must("a payoff is at most the face value", RLe(got, RMul(FaceOf(q, j), RAdd(1, RMul(tol, RAdd(1, RDiv(ea, FaceOf(q, j))))))))
PayoffClauses(q, v) ==
    LET s == IdioSd(q.rho, q.sig, q.T)
        tol == RMul("1E-13", RAdd(2, IF REq(s, 0) THEN 0 ELSE RInv(s)))
    IN  UNION {OnePayoff(q, v[j], j, tol) : j \in Idx(q.f)}
SmoothClauses(q, v) ==
    LET want == Smooth(q.x, q.w)
        scale == SMaxAbs(q.x)
        tol == RMul("1E-13", q.w)
    IN  UNION {MustNear("smoothed series", v[j], want[j], scale, tol) : j \in Idx(q.x)}
YieldClauses(q, v) ==
    LET l == LoanValue(q.F, RExp(q.ival), q.r, q.T, q.sig, q.d)
        size == RDiv(RAdd(q.F, RExp(q.ival)), l)
    IN  MustNear("promised-yield error", v[1], YieldError(q.mu, q.F, q.ival, q.sig, q.T, q.r, q.d),
                 RAdd(RAbs(q.mu), RDiv(RAdd(1, size), q.T)), "1E-12")
MertonClauses(q, v) ==
    LET e == MertonErrors(q.A, q.s, q.E, q.D, q.r, q.d, q.T, q.sE)
        \* the size of what is subtracted: deep out of the money options are differences of small probabilities
        vsize == RMul(RDiv(RAbs(q.A), q.E), RAbs(q.s))
    IN  MustNear("error in equity value", v[1], e[1], RAdd(RAdd(q.E, RAbs(q.A)), q.D), "1E-11")
        \cup MustNear("error in equity volatility", v[2], e[2], RAdd(q.sE, vsize), "1E-11")
        \cup Must("negative guesses are penalised", RLt(q.A, 0) \/ RLt(q.s, 0) => RGt(v[1], RAdd(q.E, RMul("1E6", RAdd(RSq(RMin2(q.A, 0)), RSq(RMin2(q.s, 0))))))
                                                    \/ RGt("1E-4", RAdd(RSq(RMin2(q.A, 0)), RSq(RMin2(q.s, 0)))))
Want(q) == CASE q.fn = "payoff" -> Len(q.f) [] q.fn = "smooth" -> Len(q.x) [] q.fn = "yield" -> 1 [] q.fn = "merton" -> 2
MertonCallClauses(k, i) ==
    LET q == Calls(k)[i]
        r == Result(k, i)
    IN  IF r.exc # "" THEN MustD("returns", FALSE, q.fn \o " " \o r.exc)
        ELSE IF Len(r.value) # Want(q) THEN MustD("a value for every input", FALSE, q.fn)
        ELSE CASE q.fn = "payoff" -> PayoffClauses(q, r.value)
               [] q.fn = "smooth" -> SmoothClauses(q, r.value)
               [] q.fn = "yield" -> YieldClauses(q, r.value)
               [] q.fn = "merton" -> MertonClauses(q, r.value)
Some(k, P(_)) == \E i \in Idx(Calls(k)) : P(Calls(k)[i])
MertonSituations(k) ==
    Tag("payoff", Some(k, LAMBDA q : q.fn = "payoff")) \o Tag("face value per cell", Some(k, LAMBDA q : q.fn = "payoff" /\ Len(q.F) > 1))
    \o Tag("perfectly correlated borrowers", Some(k, LAMBDA q : q.fn = "payoff" /\ REq(q.rho, 1)))
    \o Tag("smooth", Some(k, LAMBDA q : q.fn = "smooth")) \o Tag("wide window", Some(k, LAMBDA q : q.fn = "smooth" /\ 2 * q.w >= Len(q.x)))
    \o Tag("yield", Some(k, LAMBDA q : q.fn = "yield")) \o Tag("inversion", Some(k, LAMBDA q : q.fn = "merton"))
    \o Tag("negative guess", Some(k, LAMBDA q : q.fn = "merton" /\ (RLt(q.A, 0) \/ RLt(q.s, 0))))
    \o Tag("zero guess", Some(k, LAMBDA q : q.fn = "merton" /\ (REq(q.A, 0) \/ REq(q.s, 0))))
=============================================================================

--------------------------------- MODULE Pin ---------------------------------
(***************************************************************************)
(* Probability of informed trading: days are good, bad or no-news days,    *)
(* and buys and sells are Poisson with the intensities of the kind of day. *)
(* p = [alpha, delta, eb, es, mu]                                          *)
(***************************************************************************)
EXTENDS Num
\* log Poisson mass of n at intensity l, without the factorial
LogPoisson(n, l) == IF REq(n, 0) THEN RNeg(l) ELSE RSub(RMul(n, RLn(l)), l)
Good(p, b, s) == RAdd(LogPoisson(b, RAdd(p.eb, p.mu)), LogPoisson(s, p.es))
Bad(p, b, s)  == RAdd(LogPoisson(b, p.eb), LogPoisson(s, RAdd(p.es, p.mu)))
None(p, b, s) == RAdd(LogPoisson(b, p.eb), LogPoisson(s, p.es))
WGood(p) == RMul(p.alpha, RSub(1, p.delta))
WBad(p)  == RMul(p.alpha, p.delta)
WNone(p) == RSub(1, p.alpha)
Weighted(w, l) == IF REq(w, 0) THEN "-Infinity" ELSE RAdd(RLn(w), l)
DayLogL(p, b, s) ==
    LET x == Weighted(WGood(p), Good(p, b, s))
        y == Weighted(WBad(p), Bad(p, b, s))
        z == Weighted(WNone(p), None(p, b, s))
        m == RMax2(x, RMax2(y, z))
    IN  IF ~RIsFinite(m) THEN m
        ELSE RAdd(m, RLn(RSum(<<RExp(RSub(x, m)), RExp(RSub(y, m)), RExp(RSub(z, m))>>)))
LogL(p, B, S) == RSum([t \in Idx(B) |-> DayLogL(p, B[t], S[t])])
PinOf(p) == RDiv(RMul(p.alpha, p.mu), RSum(<<RMul(p.alpha, p.mu), p.eb, p.es>>))

\* the starting points of Yan and Zhang (2012)
Five == <<"0.1", "0.3", "0.5", "0.7", "0.9">>
StartPoint(i, j, k, B, S) ==
    LET mb == SMean(B)
        eb == RMul(Five[k], mb)
        mu == RDiv(RSub(mb, eb), RMul(Five[i], RSub(1, Five[j])))
    IN  [alpha |-> RVal(Five[i]), delta |-> RVal(Five[j]), eb |-> eb, mu |-> mu,
         es |-> RSub(SMean(S), RMul(RMul(Five[i], Five[j]), mu))]
Admissible(p) == RGe(p.es, 0)
\* the likelihood is defined away from zero intensities only
Interior(p) == RGt(p.eb, 0) /\ RGt(p.es, 0) /\ RGt(p.mu, 0)
=============================================================================

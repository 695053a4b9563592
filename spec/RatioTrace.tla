------------------------------ MODULE RatioTrace ------------------------------
(***************************************************************************)
(* C23.  in : [returns, sdv, past, calls: <<[fn, roa, capital]>>]          *)
(*       out: results[i] = [exc, value]                                    *)
(* The coefficient's rounding is relative to the size of both sides of its *)
(* normal equation: returns that are nearly orthogonal to the volume lose  *)
(* digits in any algorithm.                                                *)
(***************************************************************************)
EXTENDS CallTrace, Micro
Norm(s) == RSqrt(RDot(s, s))
KyleScale(k) == RMul(1000000, RDiv(Norm(In(k).returns), Norm(In(k).sdv)))
RatioClauses(k, i) ==
    LET q == Calls(k)[i]
        r == Result(k, i)
    IN  IF r.exc # "" THEN MustD("returns", FALSE, q.fn \o " " \o r.exc)
        ELSE IF q.fn = "kyle"
        THEN MustNear("Kyle's lambda", r.value, KyleLambda(In(k).returns, In(k).sdv), KyleScale(k), "1E-11")
        ELSE LET sd == SStd(In(k).past)
                 \* a standard deviation far below the size of the data loses digits
                 loss == RDiv(RAdd(SMaxAbs(In(k).past), sd), sd)
             IN  MustNear("Z-score", r.value, ZScore(q.roa, q.capital, In(k).past), RDiv(RAdd(RAbs(q.roa), RAbs(q.capital)), sd),
                          RMul("1E-13", RAdd(100, RMul(loss, loss))))
RatioSituations(k) ==
    Tag("one observation", Len(In(k).returns) = 1)
    \o Tag("negative ROA", \E i \in Idx(Calls(k)) : RLt(Calls(k)[i].roa, 0))
    \o Tag("large volumes", RGt(SMaxAbs(In(k).sdv), "1E8"))
    \o Tag("returns against volume", RLt(RDot(In(k).returns, In(k).sdv), 0))
=============================================================================

--------------------------- MODULE NumberTypeTrace ---------------------------
(***************************************************************************)
(* C33.  in : [fn, a: argument -> numbers (sequence, rows, or a number),   *)
(*             opt, calls: <<[types: argument -> number type]>>]           *)
(*       out: results[i] = [exc, value: sequence]                          *)
(* The first call passes doubles.  Every call passes the same numbers, so  *)
(* every call gives the documented function of the numbers, evaluated here *)
(* exactly, or, where another check has that function, what doubles give.  *)
(***************************************************************************)
EXTENDS CallTrace, Systemic, OptionPrice
M == INSTANCE Micro
P == INSTANCE Pin
A(k) == In(k).a
Opt2(k) == In(k).opt
Top(x) == [i \in Idx(x) |-> x[i][Len(x[i])]]
SpreadOf(k, fn, directed) ==
    LET I == A(k) IN
    CASE fn = "effective" -> M!TradeMeasure(fn, I.price, I.mid, I.mid, I.volume, I.dir, Opt2(k).pct, directed)
      [] OTHER -> M!TradeMeasure(fn, I.price, I.mid, I.later, I.volume, I.dir, Opt2(k).pct, directed)
Quoted(k, deviation(_)) == LET I == A(k) IN SMean(RSeq([t \in Idx(I.bid) |-> deviation(M!Deviation(I.ask[t], I.bid[t], RDiv(RAdd(I.bid[t], I.ask[t]), 2), Opt2(k).pct))]))
\* the difference of two logarithms of whole numbers is rounded as they are
Logs(k) == IF Opt2(k).pct THEN 0 ELSE "0.05"
Same1(v) == v
PerPrices(size, price) == RAdd(SMaxAbs(RSeq([i \in Idx(size) |-> M!PerPrice(size[i], price[i], 3, 5)])), SMaxAbs(RSeq([i \in Idx(size) |-> M!PerPrice(size[i], price[i], 1, 3)])))
\* the documented value, and the size of what is added up; <<>> where another check has the formula
Formula(k) ==
    LET fn == In(k).fn
        I == A(k)
    IN  CASE fn = "quoted" -> <<<<Quoted(k, Same1), RAdd(Quoted(k, RAbs), Logs(k))>>>>
          [] fn \in {"effective", "realized", "impact"} -> <<<<SpreadOf(k, fn, Opt2(k).directed), RAdd(SpreadOf(k, fn, FALSE), Logs(k))>>>>
          [] fn \in {"bid_slope", "ask_slope"} ->
               LET s == RSeq([i \in Idx(I.size) |-> RDiv(RSum(I.size[i]), IF fn = "ask_slope" THEN RSub(I.highest[i], I.mid[i]) ELSE RAbs(RSub(I.highest[i], I.mid[i])))])
               IN  <<<<SMean(s), SMaxAbs(s)>>>>
          [] fn \in {"bid_diff", "ask_diff"} -> <<<<M!SlopeDifference(I.size, I.price), PerPrices(I.size, I.price)>>>>
          [] fn = "depth" -> <<<<M!DepthDifference(I.bid, I.ask), 2>>>>
          [] fn = "kyle" -> <<<<M!KyleLambda(I.returns, I.sdv), RMul(1000000, RDiv(RSqrt(RDot(I.returns, I.returns)), RSqrt(RDot(I.sdv, I.sdv))))>>>>
          [] fn = "z_score" -> LET sd == SStd(I.past) IN <<<<M!ZScore(I.roa, I.capital, I.past), RMul(RDiv(RAdd(RAbs(I.roa), RAbs(I.capital)), sd), RSq(RDiv(RAdd(SMaxAbs(I.past), sd), sd)))>>>>
          [] fn = "mes" -> <<<<Mes(I.firm, I.market, Opt2(k).q), SMaxAbs(I.firm)>>>>
          [] fn = "srisk" -> [f \in Idx(I.W) |-> <<Srisk(Opt2(k).k, I.D[f], I.W[f], Opt2(k).lrmes[f]), SriskScale(Opt2(k).k, I.D[f], I.W[f], Opt2(k).lrmes[f])>>]
          [] fn = "pin" -> LET p == Opt2(k).p
                               mag == RSum([t \in Idx(I.B) |-> RAdd(RAdd(p.mu, RAdd(p.eb, p.es)), RMul(RAdd(I.B[t], I.S[t]), 20))])
                           IN  <<<<P!LogL(p, I.B, I.S), mag>>>>
          [] fn = "option" -> LET o(i) == [S |-> I.S[i], K |-> I.K[i], r |-> Opt2(k).r, T |-> I.T[i], sigma |-> Opt2(k).sigma, q |-> Opt2(k).q]
                                  m(i) == RAdd(DiscS(o(i)), DiscK(o(i)))
                              IN  [i \in 1 .. 2 * Len(I.S) |-> IF i <= Len(I.S) THEN <<CallPrice(o(i)), m(i)>> ELSE <<PutPrice(o(i - Len(I.S))), m(i - Len(I.S))>>]
          [] OTHER -> <<>>
Single(k, i) == \E u \in DOMAIN Calls(k)[i].types : Calls(k)[i].types[u] = "f4"
Tol(k, i) == IF Single(k, i) THEN "3E-5" ELSE "1E-10"
NumberClauses(k, i) ==
    LET r == Result(k, i)
        want == Formula(k)
        what == In(k).fn \o " " \o ToString(Calls(k)[i].types)
        like == Result(k, 1)
    IN  IF r.exc # "" THEN MustD("every number type is accepted", FALSE, what \o ": " \o r.exc)
        ELSE IF want # <<>>
        THEN Must("one value per element", Len(r.value) = Len(want)) \cup
             (IF Len(r.value) # Len(want) THEN {}
              ELSE UNION {IF RNear(r.value[j], want[j][1], want[j][2], Tol(k, i)) THEN {}
                          ELSE MustD("a function of the numbers, not of their type", FALSE, what \o ": got " \o RStr(r.value[j]) \o " want " \o RStr(want[j][1])) : j \in Idx(want)})
        ELSE MustD("the type of the numbers does not matter", like.exc # "" \/ SNear(r.value, like.value, RAdd(Opt2(k).scale, SMaxAbs(like.value)), Tol(k, i)),
                   what \o ": got " \o ToString(r.value) \o " with doubles " \o ToString(like.value))
\* some argument cannot be computed with in its own type
NumberSituations(k) == <<In(k).fn>>
    \o Tag("outside the type: " \o In(k).kernel, In(k).kernel # "none")
    \o Tag("unsigned", \E i \in Idx(Calls(k)) : \E u \in DOMAIN Calls(k)[i].types : Calls(k)[i].types[u] \in {"u1", "u2", "u4", "u8"})
    \o Tag("one byte", \E i \in Idx(Calls(k)) : \E u \in DOMAIN Calls(k)[i].types : Calls(k)[i].types[u] \in {"u1", "i1"})
    \o Tag("eight bytes", \E i \in Idx(Calls(k)) : \E u \in DOMAIN Calls(k)[i].types : Calls(k)[i].types[u] \in {"u8", "i8"})
    \o Tag("mixed types", \E i \in Idx(Calls(k)) : \E u, m \in DOMAIN Calls(k)[i].types : Calls(k)[i].types[u] # Calls(k)[i].types[m])
    \o Tag("single precision", \E i \in Idx(Calls(k)) : Single(k, i))
=============================================================================

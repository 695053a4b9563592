------------------------------ MODULE MesTrace ------------------------------
(***************************************************************************)
(* C14.  in : [firm, market, valid, calls: <<[q]>>]                        *)
(*       out: results[i] = [exc, value], permuted: the value for the same  *)
(*            pairs in another order (valid calls)                         *)
(* A quantile that falls on an observation up to rounding may or may not   *)
(* be above it, unless the arithmetic is exact.                            *)
(***************************************************************************)
EXTENDS CallTrace, Systemic
ValidQ(q) == RGe(q, 0) /\ RLe(q, 1)
\* binary fractions of few bits are computed exactly
ExactRank(m, q) == LET x == RMul(1024, q) IN REq(x, RFloor(x))
Nearby(m, thr) == LET tol == RMul("1E-13", SMaxAbs(m)) IN
    {{t \in Idx(m) : RLt(m[t], RSub(thr, tol))}, {t \in Idx(m) : RLe(m[t], RAdd(thr, tol))}}
NearRank(m, q) == LET h == RMul(Len(m) - 1, q) IN RLe(RAbs(RSub(h, RFloor(RAdd(h, "0.5")))), RMul("1E-13", Len(m)))
\* the observations whose mean is the value
DaySets(m, q) ==
    LET thr == Quantile(m, q)
        o == SSorted(m)
        i == RFloor(RAdd(RMul(Len(m) - 1, q), "0.5")) + 1
    IN  {DaysBelow(m, thr)} \cup (IF ExactRank(m, q) THEN {}
        ELSE IF NearRank(m, q) THEN Nearby(m, o[i]) ELSE {})
Value(f, days) == IF days = {} THEN "NaN" ELSE MeanOver(f, days)
FirmScale(k) == SMaxAbs(SelectSeq(In(k).firm, LAMBDA x : ~RIsNaN(x)))
MesClauses(k, i) ==
    LET q == Calls(k)[i].q
        r == Result(k, i)
    IN  IF ~ValidQ(q) THEN Must("quantiles outside [0, 1] are rejected", r.exc # "")
        ELSE IF r.exc # "" THEN MustD("returns", FALSE, r.exc)
        ELSE MustD("mean over the days strictly below the quantile",
                   \E d \in DaySets(In(k).market, q) : RNear(r.value, Value(In(k).firm, d), RMul("1E-3", FirmScale(k)), "1E-9"),
                   <<RStr(r.value), RStr(Mes(In(k).firm, In(k).market, q))>>)
             \cup MustNear("depends on the pairs, not their order", Out(k).permuted[i], r.value, FirmScale(k), "1E-9")
MesSituations(k) ==
    Tag("no worse day", \E i \in Idx(Calls(k)) : ValidQ(Calls(k)[i].q) /\ DaysBelow(In(k).market, Quantile(In(k).market, Calls(k)[i].q)) = {})
    \o Tag("quantile on an observation", \E i \in Idx(Calls(k)) : LET q == Calls(k)[i].q IN ValidQ(q) /\ \E t \in Idx(In(k).market) : REq(In(k).market[t], Quantile(In(k).market, q)))
    \o Tag("tied observations", \E s, t \in Idx(In(k).market) : s # t /\ REq(In(k).market[s], In(k).market[t]))
    \o Tag("firm without a return on some day", \E t \in Idx(In(k).firm) : RIsNaN(In(k).firm[t]))
    \o Tag("rejected", \E i \in Idx(Calls(k)) : ~ValidQ(Calls(k)[i].q))
=============================================================================

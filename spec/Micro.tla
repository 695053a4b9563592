-------------------------------- MODULE Micro --------------------------------
(***************************************************************************)
(* Market microstructure measures (and the Z-score) as functions of the    *)
(* recorded quotes and trades.                                             *)
(***************************************************************************)
EXTENDS Num, FiniteSets
\* the mean of the values that are not missing
Present(s) == SelectSeq(s, LAMBDA x : ~RIsNaN(x))
MeanPresent(s) == LET q == Present(s) IN IF q = <<>> THEN "NaN" ELSE SMean(q)
\* -------------------------------------------------------------- spreads
\* relative (percent) or log distance of x from y, for the midpoint m
Deviation(x, y, m, pct) == IF pct THEN RMul(100, RDiv(RSub(x, y), m)) ELSE RSub(RLn(x), RLn(y))
QuotedSpread(bid, ask, pct) == SMean(RSeq([t \in Idx(bid) |-> Deviation(ask[t], bid[t], RDiv(RAdd(bid[t], ask[t]), 2), pct)]))
\* what one trade adds: signed by its direction, or absolute without directions
Signed(d, dir, directed) == RMul(2, IF directed THEN RMul(dir, d) ELSE RAbs(d))
Pair(fn, p, m, later, t) == CASE fn = "effective" -> <<p[t], m[t]>> [] fn = "realized" -> <<p[t], later[t]>> [] fn = "impact" -> <<later[t], m[t]>>
Trades(fn, p, m, later, dir, pct, directed) ==
    RSeq([t \in Idx(p) |-> LET x == Pair(fn, p, m, later, t) IN Signed(Deviation(x[1], x[2], m[t], pct), dir[t], directed)])
DollarVolume(p, v) == RSeq([t \in Idx(p) |-> RMul(p[t], v[t])])
\* the dollar-volume weighted mean; the simple mean (of those present) if nothing was traded
Weighted(s, w) == IF \A t \in Idx(w) : REq(w[t], 0) THEN MeanPresent(s) ELSE RDiv(RDot(s, w), RSum(w))
TradeMeasure(fn, p, m, later, v, dir, pct, directed) == Weighted(Trades(fn, p, m, later, dir, pct, directed), DollarVolume(p, v))

\* ----------------------------------------------------------- order book
\* quotes x levels; the mean skips quotes with a missing value
Slopes(size, highest, mid) == RSeq([i \in Idx(size) |-> RDiv(RSum(size[i]), RAbs(RSub(highest[i], mid[i])))])
BookSlope(size, highest, mid) == MeanPresent(Slopes(size, highest, mid))
\* change of size per change of price from level a to level b
PerPrice(size, price, a, b) == RDiv(RSub(size[b], size[a]), RAbs(RSub(price[b], price[a])))
SlopeDifferences(size, price) == RSeq([i \in Idx(size) |-> RSub(PerPrice(size[i], price[i], 3, 5), PerPrice(size[i], price[i], 1, 3))])
SlopeDifference(size, price) == MeanPresent(SlopeDifferences(size, price))
DepthDifferences(bid, ask) == RSeq([i \in Idx(bid) |-> LET b == RSum(bid[i]) a == RSum(ask[i]) IN RMul(2, RDiv(RSub(a, b), RAdd(a, b)))])
DepthDifference(bid, ask) == MeanPresent(DepthDifferences(bid, ask))

\* --------------------------------------------------------------- ratios
KyleLambda(returns, sdv) == RMul(1000000, RDiv(RDot(returns, sdv), RDot(sdv, sdv)))
ZScore(roa, capital, past) == RDiv(RAdd(roa, capital), SStd(past))
=============================================================================

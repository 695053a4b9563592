-------------------------------- MODULE BookMC --------------------------------
(* Order books of five levels on a lattice of sizes, quotes entered one by one  *)
(* or missing: laws of the measures; each history is a scenario.                *)
EXTENDS Micro, TLC, Json
CONSTANTS T, Sizes
VARIABLES bid, ask, done
vars == <<bid, ask, done>>
\* sizes of levels 1, 3 and 5 vary; the sides' prices are fixed
Book(x, y, z) == <<x, "1", y, "1", z>>
PB == <<"9", "8", "7", "6", "4">>
PA == <<"11", "12", "13", "13.5", "14">>
Init == bid = <<>> /\ ask = <<>> /\ done = FALSE
Quote == ~done /\ Len(bid) < T /\ (\E x, y, z, u \in Sizes : bid' = Append(bid, Book(x, y, z)) /\ ask' = Append(ask, Book(z, u, y))) /\ UNCHANGED done
Emit == ~done /\ Len(bid) > 0 /\ PrintT("FRDS " \o ToJson(<<"SCEN", [bid |-> bid, ask |-> ask]>>)) /\ done' = TRUE /\ UNCHANGED <<bid, ask>>
Next == Quote \/ Emit
Spec == Init /\ [][Next]_vars
K == Len(bid)
Prices(p) == [i \in 1 .. K |-> p]
Mid == [i \in 1 .. K |-> 10]
Rev(s) == [i \in Idx(s) |-> s[Len(s) + 1 - i]]
Some == K > 0
DepthBounded == Some => LET d == DepthDifference(bid, ask) IN RIsNaN(d) \/ RLe(RAbs(d), 2)
DepthAntisymmetric == Some => RNear(DepthDifference(bid, ask), RNeg(DepthDifference(ask, bid)), 1, "1E-30")
SlopePositive == Some => LET s == BookSlope(bid, [i \in 1 .. K |-> 4], Mid) IN RIsNaN(s) \/ RGt(s, 0)
OrderFree == Some => /\ RNear(DepthDifference(bid, ask), DepthDifference(Rev(bid), Rev(ask)), 1, "1E-30")
                     /\ RNear(SlopeDifference(bid, Prices(PB)), SlopeDifference(Rev(bid), Prices(PB)), 1, "1E-30")
\* a missing quote is as one that was never recorded
Complete == {i \in 1 .. K : \A j \in 1 .. 5 : ~RIsNaN(bid[i][j])}
KeepOnly(s) == SelectSeq(s, LAMBDA q : \A j \in 1 .. 5 : ~RIsNaN(q[j]))
MissingIsSkipped == Some => RNear(BookSlope(bid, [i \in 1 .. K |-> 4], Mid),
                                  IF Complete = {} THEN "NaN" ELSE BookSlope(KeepOnly(bid), [i \in 1 .. Cardinality(Complete) |-> 4], [i \in 1 .. Cardinality(Complete) |-> 10]), 1, "1E-30")
=============================================================================

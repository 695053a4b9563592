------------------------------ MODULE BookTrace ------------------------------
(***************************************************************************)
(* C22.  in : [bid, ask: quotes x levels of sizes, bidp, askp: quotes x    *)
(*             levels of prices, mid, calls: <<[fn]>>]                     *)
(*       out: results[i] = [exc, value, permuted, swapped]                 *)
(*            permuted: the value for the same quotes in another order,    *)
(*            swapped: bid and ask sides exchanged (depth difference)      *)
(***************************************************************************)
EXTENDS CallTrace, Micro
Top(x) == [i \in Idx(x) |-> x[i][Len(x[i])]]
Each(k, fn) == LET I == In(k) IN
    CASE fn = "bid_slope" -> Slopes(I.bid, Top(I.bidp), I.mid)
      [] fn = "ask_slope" -> Slopes(I.ask, Top(I.askp), I.mid)
      [] fn = "bid_diff"  -> SlopeDifferences(I.bid, I.bidp)
      [] fn = "ask_diff"  -> SlopeDifferences(I.ask, I.askp)
      [] fn = "depth"     -> DepthDifferences(I.bid, I.ask)
BookClauses(k, i) ==
    LET fn == Calls(k)[i].fn
        r == Result(k, i)
        each == Each(k, fn)
        s == SMaxAbs(Present(each))
    IN  IF r.exc # "" THEN MustD("returns", FALSE, fn \o " " \o r.exc)
        ELSE MustNear(fn \o " is the mean over the quotes", r.value, MeanPresent(each), s, "1E-9")
             \cup MustNear("the order of quotes does not matter", r.permuted, r.value, s, "1E-9")
             \cup (IF fn # "depth" THEN {}
                   ELSE MustNear("swapping the sides changes the sign", r.swapped, RNeg(r.value), s, "1E-9")
                        \cup Must("the scaled depth difference is within -2 and 2", RIsNaN(r.value) \/ RLe(RAbs(r.value), 2)))
Missing(x) == \E i \in Idx(x) : \E j \in Idx(x[i]) : RIsNaN(x[i][j])
BookSituations(k) ==
    Tag("missing size", Missing(In(k).bid) \/ Missing(In(k).ask))
    \o Tag("missing price", Missing(In(k).bidp) \/ Missing(In(k).askp))
    \o Tag("all missing", \E i \in Idx(Calls(k)) : Present(Each(k, Calls(k)[i].fn)) = <<>>)
    \o Tag("one-sided book", \E i \in Idx(Calls(k)) : Calls(k)[i].fn = "depth" /\ ReturnedAt(k, i) /\ REq(RAbs(Result(k, i).value), 2))
    \o Tag("more than five levels", Len(In(k).bid[1]) > 5)
    \o Tag("fewer than five levels", Len(In(k).bid[1]) < 5)
=============================================================================

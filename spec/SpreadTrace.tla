----------------------------- MODULE SpreadTrace -----------------------------
(***************************************************************************)
(* C21.  in : [bid, ask, price, mid, later, volume, dir, factor,           *)
(*             calls: <<[fn, pct, directed]>>]                             *)
(*       out: results[i] = [exc, value, scaled], scaled: the value for all *)
(*            volumes times the factor                                     *)
(***************************************************************************)
EXTENDS CallTrace, Micro
Want(k, q) == LET I == In(k) IN
    IF q.fn = "quoted" THEN QuotedSpread(I.bid, I.ask, q.pct)
    ELSE TradeMeasure(q.fn, I.price, I.mid, I.later, I.volume, I.dir, q.pct, q.directed)
\* rounding is relative to the size of what is averaged
Scale(k, q) == LET I == In(k) IN
    IF q.fn = "quoted" THEN "1E-3"
    ELSE RAdd("1E-3", TradeMeasure(q.fn, I.price, I.mid, I.later, I.volume, I.dir, q.pct, FALSE))
\* the calls of the history with the same conventions as call i
Alike(k, i, fn) == {j \in Idx(Calls(k)) : Calls(k)[j].fn = fn /\ Calls(k)[j].pct = Calls(k)[i].pct
                       /\ Calls(k)[j].directed = Calls(k)[i].directed /\ ReturnedAt(k, j)}
Missing(k) == \E t \in Idx(In(k).mid) : RIsNaN(In(k).mid[t]) \/ RIsNaN(In(k).later[t])
SpreadClauses(k, i) ==
    LET q == Calls(k)[i]
        r == Result(k, i)
        s == Scale(k, q)
    IN  IF r.exc # "" THEN MustD("returns", FALSE, q.fn \o " " \o r.exc)
        ELSE MustNear(q.fn \o " is the weighted mean", r.value, Want(k, q), s, "1E-10")
             \cup (IF q.fn = "quoted" THEN {} ELSE MustNear("rescaling volumes changes nothing", r.scaled, r.value, s, "1E-10"))
             \cup (IF q.fn = "effective" /\ q.directed /\ ~Missing(k)
                   THEN UNION {MustNear("effective = realized + impact", r.value, RAdd(Result(k, j).value, Result(k, l).value),
                                        RAdd(s, RAdd(Scale(k, Calls(k)[j]), Scale(k, Calls(k)[l]))), "1E-10")
                               : j \in Alike(k, i, "realized"), l \in Alike(k, i, "impact")} ELSE {})
SpreadSituations(k) ==
    Tag("nothing traded", \A t \in Idx(In(k).volume) : REq(In(k).volume[t], 0))
    \o Tag("some not traded", \E s, t \in Idx(In(k).volume) : REq(In(k).volume[t], 0) /\ RGt(In(k).volume[s], 0))
    \o Tag("sells and buys", \E s, t \in Idx(In(k).dir) : RLt(In(k).dir[s], 0) /\ RGt(In(k).dir[t], 0))
    \o Tag("missing midpoints", Missing(k))
    \o Tag("crossed quote", \E t \in Idx(In(k).bid) : RGt(In(k).bid[t], In(k).ask[t]))
    \o Tag("negative measure", \E i \in Idx(Calls(k)) : ReturnedAt(k, i) /\ RLt(Result(k, i).value, 0))
=============================================================================

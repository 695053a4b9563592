----------------------------- MODULE LrmesTrace -----------------------------
(***************************************************************************)
(* C11: a history of LRMES estimations on one object.  Every estimation    *)
(* is replayed path by path on the model of Lrmes.tla from the state the   *)
(* estimated DCC model ended in.                                           *)
(*   in : [firm, market, calls: <<[h, S, C, seed, before], ...>>]          *)
(*        before: what happened to the global generators before the call   *)
(*   out: [fitted, pf, pm, a, b, e: <<firm, market resids>>, v: variances, *)
(*         results: one per call, draws: one per call: the S x h positions *)
(*         of the historical innovations that NumPy's generator yields for *)
(*         the seed (0-based), x: <<firm, market>> log returns in percent] *)
(* pos = <<call, path>>; acc = [n, sum, tie].                              *)
(***************************************************************************)
EXTENDS TraceBase, Lrmes
VARIABLES c, pos, hist, acc, bad
vars == <<c, pos, hist, acc, bad>>
Usable(k) == Returned(k) /\ Out(k).fitted
\* and those added by the driver: two thresholds that enclose the market's return along a path
Calls(k) == IF Usable(k) THEN In(k).calls \o Out(k).extra ELSE In(k).calls
Init == c \in 1 .. NCases /\ pos = <<0, 0>> /\ hist = <<>> /\ acc = <<>> /\ bad = {}
Zero == [n |-> 0, sum |-> 0, tie |-> FALSE, big |-> FALSE]
LogReturn(r) == RMul(100, RLn(RAdd(1, r)))
\* the historical sample: standardized market innovation and the firm shock orthogonal to it
Begin ==
    /\ pos = <<0, 0>> /\ c' = c
    /\ IF ~Usable(c)
       THEN pos' = <<-2, 0>> /\ bad' = (IF Returned(c) THEN Must("a failed estimation raises RuntimeError", Out(c).results = "RuntimeError")
                                        ELSE MustD("estimate returns", FALSE, Out(c).exc))
            /\ UNCHANGED <<hist, acc>>
       ELSE \E zi \in {Standardize(Out(c).e[1], Out(c).v[1])}, zm \in {Standardize(Out(c).e[2], Out(c).v[2])} :
            \E q \in {QPathTo(Len(zi), Out(c).a, Out(c).b, zi, zm)} :
            \E rho \in {RSeq([t \in Idx(q) |-> RhoOf(q[t])])}, n \in {Len(zi)} :
               /\ pos' = <<1, 1>> /\ acc' = Zero
               /\ hist' = [x |-> RSeq([t \in 1 .. n |-> RDiv(RSub(zi[t], RMul(rho[t], zm[t])), RSqrt(RSub(1, RSq(rho[t]))))]),
                           y |-> zm, qbar |-> q[1][2],
                           s0 |-> [fv |-> Out(c).v[1][n], mv |-> Out(c).v[2][n], fe |-> Out(c).e[1][n], me |-> Out(c).e[2][n], rho |-> rho[n]]]
               /\ bad' = Must("the models are estimated on log returns in percent",
                              \A t \in 1 .. n : /\ RNear(RAdd(Out(c).e[1][t], Out(c).pf.mu), LogReturn(In(c).firm[t]), 1, "1E-9")
                                                /\ RNear(RAdd(Out(c).e[2][t], Out(c).pm.mu), LogReturn(In(c).market[t]), 1, "1E-9"))
RECURSIVE Walk(_, _, _, _)
Walk(k, draws, h, s) ==
    IF h > Len(draws) THEN s
    ELSE Walk(k, draws, h + 1, PathNext(s, Out(k).pf, Out(k).pm, Out(k).a, Out(k).b, hist.qbar, hist.x[draws[h] + 1], hist.y[draws[h] + 1]))
\* one path
Path ==
    /\ pos[1] > 0 /\ pos[1] <= Len(Calls(c)) /\ pos[2] <= Calls(c)[pos[1]].S
    /\ \E s \in {Walk(c, Out(c).draws[pos[1]][pos[2]], 1, PathStart(hist.s0))}, C \in {Calls(c)[pos[1]].C} :
       \E ev \in {Systemic(s, C)} :
          acc' = [n |-> acc.n + (IF ev THEN 1 ELSE 0), sum |-> IF ev THEN RAdd(acc.sum, FirmReturn(s)) ELSE acc.sum,
                  tie |-> acc.tie \/ Tie(s, C), big |-> acc.big \/ (ev /\ RGt(RAbs(FirmReturn(s)), "1E6"))]
    /\ pos' = <<pos[1], pos[2] + 1>> /\ UNCHANGED <<c, hist, bad>>
\* one estimation
Estimate ==
    /\ pos[1] > 0 /\ pos[1] <= Len(Calls(c)) /\ pos[2] > Calls(c)[pos[1]].S
    /\ LET want == IF acc.n = 0 THEN 0 ELSE RNeg(RDiv(acc.sum, acc.n))
           got == Out(c).results[pos[1]]
       IN bad' = bad \cup (IF acc.tie \/ acc.big THEN {}
                           ELSE IF acc.n = 0 THEN Must("0 without a systemic path", REq(got, 0))
                           ELSE MustNear("minus the mean firm return over systemic paths", got, want, 1, "1E-6"))
                 \cup Must("equal arguments give equal results",
                           \A m \in 1 .. pos[1] - 1 :
                              (\A f \in {"h", "S", "C", "seed"} : Calls(c)[m][f] = Calls(c)[pos[1]][f]) => REq(Out(c).results[m], got))
    /\ pos' = <<pos[1] + 1, 1>> /\ acc' = Zero /\ UNCHANGED <<c, hist>>
Finish ==
    /\ \/ pos[1] > 0 /\ pos[1] = Len(Calls(c)) + 1
       \/ pos[1] = -2
    /\ Report(c, bad \cup (IF Usable(c) THEN Must("estimation leaves the global generators alone", Out(c).global_ok)
                              \cup Must("estimation leaves the returns alone", Out(c).inputs_ok) ELSE {}),
              IF ~Usable(c) THEN <<"failed fit">> ELSE
              Tag("repeated call", \E m, n \in Idx(Calls(c)) : m < n /\ Calls(c)[m].seed = Calls(c)[n].seed /\ Calls(c)[m].S = Calls(c)[n].S)
              \o Tag("market return enclosed", Out(c).extra # <<>>)
              \o Tag("nonzero", \E m \in Idx(Calls(c)) : ~REq(Out(c).results[m], 0))
              \o Tag("zero", \E m \in Idx(Calls(c)) : REq(Out(c).results[m], 0)))
    /\ pos' = <<-1, 0>> /\ UNCHANGED <<c, hist, acc, bad>>
Next == Begin \/ Path \/ Estimate \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

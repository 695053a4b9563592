------------------------------ MODULE DipTrace ------------------------------
(***************************************************************************)
(* C16: the premium from the simulated draws.  The joint defaults are      *)
(* counted one simulated return per step; freq[k + 1] counts k defaults.   *)
(*   in : [prob, corr, calls: <<[pct, seed, nret, nloss, ...]>>]           *)
(*   out: results[i] = [exc, value], draws: <<[z, lgd]>> per distinct      *)
(*        (seed, nret, nloss): the standard normals (nret x banks) and the *)
(*        total losses given 1 .. banks defaults that NumPy's generator    *)
(*        yields for the seed; which[i]: the draws of call i               *)
(* pos = <<call, simulated return>>.                                       *)
(***************************************************************************)
EXTENDS TraceBase, Systemic
VARIABLES c, pos, chol, freq, tie, bad
vars == <<c, pos, chol, freq, tie, bad>>
View == <<c, pos>>
Calls(k) == In(k).calls
NB(k) == Len(In(k).prob)
Zeros(m) == [i \in 1 .. m |-> 0]
Usable(k) == Returned(k) /\ Len(Out(k).results) = Len(Calls(k))
Init == c \in 1 .. NCases /\ pos = <<0, 0>> /\ chol = <<>> /\ freq = <<>> /\ tie = FALSE /\ bad = {}
Begin ==
    /\ pos = <<0, 0>> /\ c' = c /\ tie' = FALSE
    /\ IF ~Usable(c) THEN pos' = <<-2, 0>> /\ bad' = MustD("returns", FALSE, Out(c).exc) /\ UNCHANGED <<chol, freq>>
       ELSE pos' = <<1, 1>> /\ bad' = {} /\ chol' = Cholesky(In(c).corr) /\ freq' = Zeros(NB(c) + 1)
D(k, i) == Out(k).draws[Out(k).which[i]]
Simulated ==
    /\ pos[1] > 0 /\ pos[1] <= Len(Calls(c)) /\ pos[2] <= Calls(c)[pos[1]].nret
    /\ \E z \in {D(c, pos[1]).z[pos[2]]} :
         /\ freq' = [freq EXCEPT ![Defaults(chol, In(c).prob, z) + 1] = @ + 1]
         /\ tie' = (tie \/ DefaultTie(chol, In(c).prob, z))
    /\ pos' = <<pos[1], pos[2] + 1>> /\ UNCHANGED <<c, chol, bad>>
Premium(k, i, f) == DipOf([b \in 1 .. NB(k) |-> RDiv(f[b + 1], Calls(k)[i].nret)], D(k, i).lgd, Calls(k)[i].pct)
LossTie(k, i) == \E b \in 1 .. NB(k), j \in 1 .. Calls(k)[i].nloss : LevelTie(D(k, i).lgd[b][j])
Clauses(k, i) ==
    LET r == Out(k).results[i] IN
    IF r.exc # "" THEN MustD("returns", FALSE, r.exc)
    ELSE Must("finite and not negative", RIsFinite(r.value) /\ RGe(r.value, 0))
         \cup (IF tie \/ LossTie(k, i) THEN {} ELSE MustNear("expected loss of the levels from the threshold on", r.value, Premium(k, i, freq), "1E-3", "1E-9"))
         \cup Must("equal calls give equal results", Out(k).results[Calls(k)[i].same] = r)
         \cup Must("does not increase in the threshold", \A j \in 1 .. i - 1 :
                   (Out(k).which[j] = Out(k).which[i]) =>
                   /\ RLe(Calls(k)[j].pct, Calls(k)[i].pct) => RGe(RAdd(Out(k).results[j].value, "1E-12"), r.value)
                   /\ RGe(Calls(k)[j].pct, Calls(k)[i].pct) => RLe(Out(k).results[j].value, RAdd(r.value, "1E-12")))
Estimate ==
    /\ pos[1] > 0 /\ pos[1] <= Len(Calls(c)) /\ pos[2] > Calls(c)[pos[1]].nret
    /\ bad' = bad \cup Clauses(c, pos[1])
    /\ pos' = <<pos[1] + 1, 1>> /\ freq' = Zeros(NB(c) + 1) /\ tie' = FALSE /\ UNCHANGED <<c, chol>>
Finish ==
    /\ \/ pos[1] > 0 /\ pos[1] = Len(Calls(c)) + 1
       \/ pos[1] = -2
    /\ Report(c, bad \cup (IF Usable(c) THEN Must("arguments are left as they were", Out(c).inputs_ok)
                                             \cup Must("the global generators are left as they were", Out(c).global_ok) ELSE {}),
              IF ~Usable(c) THEN <<>> ELSE
              Tag("one bank", NB(c) = 1) \o Tag("several banks", NB(c) > 1)
              \o Tag("no loss reaches the threshold", \E i \in Idx(Calls(c)) : Out(c).results[i].exc = "" /\ REq(Out(c).results[i].value, 0))
              \o Tag("threshold 0", \E i \in Idx(Calls(c)) : REq(Calls(c)[i].pct, 0))
              \o Tag("threshold at the maximum", \E i \in Idx(Calls(c)) : REq(Calls(c)[i].pct, 100))
              \o Tag("fractional percentage threshold", \E i \in Idx(Calls(c)) : ~REq(Calls(c)[i].pct, RFloor(Calls(c)[i].pct)))
              \o Tag("several thresholds on the same draws", \E i, j \in Idx(Calls(c)) : Out(c).which[i] = Out(c).which[j] /\ RNe(Calls(c)[i].pct, Calls(c)[j].pct))
              \o Tag("repeated call", \E i \in Idx(Calls(c)) : Calls(c)[i].same < i)
              \o Tag("disturbed", \E i \in Idx(Calls(c)) : Calls(c)[i].before # "none"))
    /\ pos' = <<-1, 0>> /\ UNCHANGED <<c, chol, freq, tie, bad>>
Next == Begin \/ Simulated \/ Estimate \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE GridMC -------------------------------
(***************************************************************************)
(* The grid search as a state machine on patterns of returns repeated over *)
(* n periods: one candidate per step, the best likelihood so far is kept.  *)
(* The patterns are then estimated with the real code (C04, C05).          *)
(***************************************************************************)
EXTENDS Grid, TLC, Json, FiniteSets
CONSTANTS Values, MaxPattern, Lengths, Models
VARIABLES pat, n, model, j, ll, best, arg
vars == <<pat, n, model, j, ll, best, arg>>
Patterns == UNION {[1 .. m -> Values] : m \in 2 .. MaxPattern}
R(p, k) == [t \in 1 .. k |-> p[((t - 1) % Len(p)) + 1]]
Returns == R(pat, n)
\* returns that do not vary have no volatility to model
Init == /\ pat \in {p \in Patterns : \E t \in Idx(p) : ~REq(p[t], p[1])} /\ n \in Lengths /\ n >= Len(pat) /\ model \in Models
        /\ j = 1 /\ ll = <<>> /\ best = "-Infinity" /\ arg = 0
LikelihoodOf(e, p) == LogL(e, VarPath(p, e, Backcast(e), VarBounds(e)))
Cand(i) == Univariate(model, i, SVar(Returns))
Try == /\ j <= GridSize(model)
       /\ \E l \in {RStr(LikelihoodOf(Returns, Cand(j)))} :
            /\ ll' = Append(ll, l)
            /\ IF RGt(l, best) THEN best' = l /\ arg' = j ELSE UNCHANGED <<best, arg>>
       /\ j' = j + 1 /\ UNCHANGED <<pat, n, model>>
Emit == /\ j = GridSize(model) + 1
        /\ PrintT("FRDS " \o ToJson(<<"SCEN", [returns |-> Returns, model |-> model]>>))
        /\ j' = j + 1 /\ UNCHANGED <<pat, n, model, ll, best, arg>>
Next == Try \/ Emit
Spec == Init /\ [][Next]_vars
Tried == 1 .. Len(ll)
\* no candidate tried is better than the one kept, and the earlier of equals is kept
BestIsBest == \A i \in Tried : RLe(ll[i], best) /\ (i < arg => RLt(ll[i], best))
KeptWasTried == Len(ll) > 0 => arg \in Tried /\ REq(ll[arg], best)
\* every candidate is admissible and has the sample variance as its unconditional variance
Admissible == j <= GridSize(model) => LET c == Cand(j) p == RAdd(RAdd(c.alpha, RDiv(c.gamma, 2)), c.beta) IN
    /\ RGt(c.omega, 0) /\ RGt(c.beta, 0) /\ RLt(p, 1)
    /\ RNear(RDiv(c.omega, RSub(1, p)), SVar(Returns), 0, "1E-30")
\* the unit of the returns shifts all likelihoods alike, so it does not matter to the choice
UnitFree == (Len(ll) > 0 /\ j <= GridSize(model) + 1) =>
    LET e2 == SScale(2, Returns)
    IN  RNear(LikelihoodOf(e2, Univariate(model, Len(ll), SVar(e2))), RSub(ll[Len(ll)], RMul(n, RLn(2))), 10, "1E-12")
\* without an asymmetric term the sign of the returns does not matter
SignFree == (Len(ll) > 0 /\ model = "garch" /\ j <= GridSize(model) + 1) =>
    LET e2 == [t \in 1 .. n |-> RNeg(Returns[t])]
    IN  RNear(LikelihoodOf(e2, Cand(Len(ll))), ll[Len(ll)], 10, "1E-12")
=============================================================================

-------------------------------- MODULE DipMC --------------------------------
(* The premium of NB banks for joint-default frequencies and losses on a       *)
(* lattice: laws of DipOf; every default model (probabilities, equicorrelation *)
(* and threshold) is emitted as a scenario.                                     *)
EXTENDS Systemic, TLC, Json
CONSTANTS NB, Losses, Probs, Rhos, Pcts
VARIABLES freq, losses, model, done
vars == <<freq, losses, model, done>>
Unit == {f \in [1 .. NB -> 0 .. 4] : LET RECURSIVE S(_)
                                          S(i) == IF i = 0 THEN 0 ELSE f[i] + S(i - 1) IN S(NB) <= 4}
Init ==
    \/ /\ freq \in Unit /\ losses \in [1 .. NB -> {<<x, y>> : x \in Losses, y \in Losses}]
       /\ \A b \in 1 .. NB : \A j \in 1 .. 2 : RLe(losses[b][j], b)
       /\ model = <<>> /\ done = FALSE
    \/ /\ freq = <<>> /\ losses = <<>> /\ done = FALSE
       /\ \E p \in UNION {[1 .. m -> Probs] : m \in 1 .. NB}, rho \in Rhos, pct \in Pcts : model = <<p, rho, pct>>
Emit == ~done /\ model # <<>> /\ PrintT("FRDS " \o ToJson(<<"SCEN", [p |-> model[1], rho |-> model[2], pct |-> model[3]]>>))
        /\ done' = TRUE /\ UNCHANGED <<freq, losses, model>>
Next == Emit
Spec == Init /\ [][Next]_vars
F == [b \in 1 .. NB |-> RDiv(freq[b], 4)]
P(pct) == DipOf(F, losses, pct)
Laws == model = <<>> =>
    /\ \A pct \in {0, 10, 15, 30, 50, 100} : RGe(P(pct), 0) /\ RLe(P(pct), RAdd(NB, "0.01"))
    /\ RGe(P(0), P(10)) /\ RGe(P(10), P(15)) /\ RGe(P(15), P(30)) /\ RGe(P(30), P(50)) /\ RGe(P(50), P(100))
    /\ (\A b \in 1 .. NB : freq[b] = 0) => REq(P(0), 0)
CholeskyIsFactor == model # <<>> => LET m == [i \in 1 .. 2 |-> [j \in 1 .. 2 |-> IF i = j THEN 1 ELSE model[2]]]
                                        l == Cholesky(m)
                                    IN RNear(RSum(<<RSq(l[2][1]), RSq(l[2][2])>>), 1, 1, "1E-30") /\ RNear(RMul(l[2][1], l[1][1]), model[2], 1, "1E-30")
=============================================================================

------------------------------- MODULE RatioMC -------------------------------
(* Observations on a lattice, entered one by one: Kyle's lambda minimises the  *)
(* squared residuals (normal equation), scales inversely with volume; the      *)
(* Z-score is invariant to a shift of past ROAs.                               *)
EXTENDS Micro, TLC, Json
CONSTANTS T, Ys, Xs
VARIABLES y, x, done
vars == <<y, x, done>>
Init == y = <<>> /\ x = <<>> /\ done = FALSE
Obs == ~done /\ Len(y) < T /\ (\E u \in Ys, w \in Xs : y' = Append(y, u) /\ x' = Append(x, w)) /\ UNCHANGED done
Usable == \E i \in Idx(x) : RNe(x[i], 0)
Emit == ~done /\ Usable /\ PrintT("FRDS " \o ToJson(<<"SCEN", [y |-> y, x |-> x]>>)) /\ done' = TRUE /\ UNCHANGED <<y, x>>
Next == Obs \/ Emit
Spec == Init /\ [][Next]_vars
L == RDiv(KyleLambda(y, x), 1000000)
NormalEquation == Usable => RNear(RDot(x, [i \in Idx(x) |-> RSub(y[i], RMul(L, x[i]))]), 0, 1, "1E-30")
Scales == Usable => RNear(KyleLambda(y, SScale(4, x)), RDiv(KyleLambda(y, x), 4), 1, "1E-30")
Spread == \E i, j \in Idx(y) : RNe(y[i], y[j])
ShiftFree == Spread => RNear(ZScore("0.1", "0.2", y), ZScore("0.1", "0.2", SShift(y, 5)), 1, "1E-30")
=============================================================================

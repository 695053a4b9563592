-------------------------------- MODULE SesMC --------------------------------
(* Training samples of N firms on a lattice: the coefficients satisfy the     *)
(* normal equations, and the SES is invariant as stated; samples are emitted. *)
EXTENDS Systemic, TLC, Json
CONSTANTS N, Firms
VARIABLES s, done
vars == <<s, done>>
Init == s = <<>> /\ done = FALSE
Col(i) == [f \in Idx(s) |-> s[f][i]]
FullRank == Len(s) = N /\ RGt(SVar(Col(1)), 0) /\ RGt(SVar(Col(2)), 0) /\ RLt(RSq(SCov(Col(1), Col(2))), RMul("0.999999", RMul(SVar(Col(1)), SVar(Col(2)))))
Enter == ~done /\ Len(s) < N /\ \E f \in Firms : s' = Append(s, f) /\ done' = FALSE
Emit == ~done /\ FullRank /\ PrintT("FRDS " \o ToJson(<<"SCEN", [mes |-> Col(1), lvg |-> Col(2), ses |-> Col(3)]>>)) /\ done' = TRUE /\ s' = s
Next == Enter \/ Emit
Spec == Init /\ [][Next]_vars
C(z) == Slopes(Col(1), Col(2), z)
Resid(z) == LET k == C(z) IN RSeq([f \in Idx(s) |-> RSub(RSub(RSub(z[f], SMean(z)), RMul(k.b, RSub(s[f][1], SMean(Col(1))))), RMul(k.c, RSub(s[f][2], SMean(Col(2)))))])
NormalEquations == FullRank => LET e == Resid(Col(3)) IN
    /\ RNear(RSum(e), 0, 1, "1E-25") /\ RNear(RDot(e, Col(1)), 0, 1, "1E-25") /\ RNear(RDot(e, Col(2)), 0, 1, "1E-25")
V(z) == Ses(C(z), "0.3", "2")
Invariant == FullRank => \/ RLe(RAbs(RAdd(C(Col(3)).b, C(Col(3)).c)), "1E-20")
                         \/ /\ RNear(V(SShift(Col(3), "7")), V(Col(3)), 1, "1E-20")
                            /\ RNear(V(SScale("3", Col(3))), V(Col(3)), 1, "1E-20")
=============================================================================

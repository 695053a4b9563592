----------------------------- MODULE AbsorptionMC -----------------------------
(* Two assets on a lattice of returns, where the eigenvalues have a closed    *)
(* form: laws of the absorption ratio for every fraction j / 8.               *)
EXTENDS Systemic, TLC, Json
CONSTANTS T, Rs
VARIABLES x, j, done
vars == <<x, j, done>>
Eigen(m) == LET tr == RAdd(m[1][1], m[2][2])
                gap == RSqrt(RAdd(RSq(RSub(m[1][1], m[2][2])), RMul(4, RSq(m[1][2]))))
            IN <<RDiv(RSub(tr, gap), 2), RDiv(RAdd(tr, gap), 2)>>
Init == x \in [1 .. 2 -> [1 .. T -> Rs]] /\ RGt(Trace(CovMatrix(x)), 0) /\ j = 0 /\ done = FALSE
More == j < 8 /\ j' = j + 1 /\ UNCHANGED <<x, done>>
Emit == j = 8 /\ ~done /\ PrintT("FRDS " \o ToJson(<<"SCEN", [x |-> x]>>)) /\ done' = TRUE /\ UNCHANGED <<x, j>>
Next == More \/ Emit
Spec == Init /\ [][Next]_vars
F(i) == RDiv(i, 8)
A(i) == Absorption(Eigen(CovMatrix(x)), CountOf(F(i), 2))
InUnit == RGe(A(j), "-1E-30") /\ RLe(A(j), "1.000000000000000000000000000001")
Monotone == j > 0 => RGe(RAdd(A(j), "1E-30"), A(j - 1))
Ends == RNear(A(0), 0, 1, "1E-30") /\ RNear(A(8), 1, 1, "1E-30")
AtLeastProportional == RGe(RAdd(A(j), "1E-30"), RDiv(CountOf(F(j), 2), 2))
Certificate == LET m == CovMatrix(x) IN \A i \in 1 .. 2 : RNear(RSub(RMul(RSub(m[1][1], Eigen(m)[i]), RSub(m[2][2], Eigen(m)[i])), RSq(m[1][2])), 0, RSq(Trace(m)), "1E-30")
=============================================================================

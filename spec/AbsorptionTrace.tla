-------------------------- MODULE AbsorptionTrace --------------------------
(***************************************************************************)
(* C13.  in : [x: rows of returns, calls: <<[fraction]>>]                  *)
(*       out: results[i] = [exc, value, real], l, v: an eigenvalue         *)
(*            certificate (checked here, not trusted), permuted, scaled:   *)
(*            values for reordered assets and rescaled returns, per call   *)
(***************************************************************************)
EXTENDS CallTrace, Systemic
N(k) == Len(In(k).x)
Certified(k) == IsEigenSystem(CovMatrix(In(k).x), Out(k).l, Out(k).v, "1E-9")
Tol == "1E-8"
AbsorptionClauses(k, i) ==
    LET r == Result(k, i)
        f == Calls(k)[i].fraction
    IN  IF r.exc # "" THEN MustD("returns", FALSE, r.exc)
        ELSE Must("a real number", r.real /\ RIsFinite(r.value))
             \cup Must("eigenvalue certificate", i > 1 \/ Certified(k))
             \cup MustD("share of the leading eigenvalues", \E m \in Counts(f, N(k)) : RNear(r.value, Absorption(Out(k).l, m), 1, Tol),
                        <<RStr(r.value), [m \in 0 .. N(k) |-> RStr(Absorption(Out(k).l, m))]>>)
             \cup Must("between 0 and 1", RGe(r.value, RNeg(Tol)) /\ RLe(r.value, "1.00000001"))
             \cup Must("0 for no eigenvector", Counts(f, N(k)) = {0} => RNear(r.value, 0, 1, Tol))
             \cup Must("1 for all eigenvectors", Counts(f, N(k)) = {N(k)} => RNear(r.value, 1, 1, Tol))
             \cup Must("does not decrease in the fraction", \A j \in 1 .. i - 1 :
                       /\ RLt(Calls(k)[j].fraction, f) => RLe(Result(k, j).value, RAdd(r.value, Tol))
                       /\ RGt(Calls(k)[j].fraction, f) => RGe(RAdd(Result(k, j).value, Tol), r.value))
             \cup MustNear("unchanged when assets are reordered", Out(k).permuted[i], r.value, 1, Tol)
             \cup MustNear("unchanged when returns are rescaled", Out(k).scaled[i], r.value, 1, Tol)
AbsorptionSituations(k) ==
    Tag("fewer days than assets", Len(In(k).x[1]) < N(k))
    \o Tag("singular covariance", \E i \in Idx(Out(k).l) : RLe(RAbs(Out(k).l[i]), RMul("1E-12", RSum(Out(k).l))))
    \o Tag("exact half", \E i \in Idx(Calls(k)) : REq(RSub(RMul(Calls(k)[i].fraction, N(k)), RFloor(RMul(Calls(k)[i].fraction, N(k)))), "0.5"))
    \o Tag("inexact half", \E i \in Idx(Calls(k)) : Cardinality(Counts(Calls(k)[i].fraction, N(k))) = 2)
=============================================================================

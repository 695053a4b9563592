------------------------------ MODULE CcaTrace ------------------------------
(***************************************************************************)
(* C18.  in : [calls: <<[E, vol, r, B, T, spread, V, sigma, ...]>>]        *)
(*        V, sigma: asset value and volatility the equity data came from   *)
(*        (a certificate: checked here to reproduce both equity values)    *)
(*       out: results[i] = [exc, put, contribution, converges]             *)
(*        converges: whether the documented root search, run on its own,   *)
(*        succeeds (otherwise only the netting is judged)                  *)
(***************************************************************************)
EXTENDS CallTrace, OptionPrice
Firm(i) == [S |-> i.V, K |-> i.B, r |-> i.r, T |-> i.T, sigma |-> i.sigma, q |-> 0]
Reproduces(i) == RClose(CallPrice(Firm(i)), i.E, "1E-10") /\ RClose(EquityVol(Firm(i)), i.vol, "1E-10")
CcaClauses(k, m) ==
    LET i == Calls(k)[m]
        r == Result(k, m)
        bond == RMul(i.B, RExp(RNeg(RMul(i.r, i.T))))
        debt == RSub(bond, r.put)
        cds == CdsPut(i.B, i.r, i.T, i.spread, debt)
        cdsScale == RMul(bond, RAdd(1, RAbs(RMul(RMul(RDiv(i.spread, 10000), RSub(RDiv(i.B, debt), 1)), i.T))))
    IN  Must("certificate", Reproduces(i)) \cup
        (IF r.exc # "" THEN MustD("returns if the inversion converges", ~r.converges, r.exc)
         ELSE (IF r.converges THEN MustNear("put of the asset value and volatility that reproduce the equity", r.put, PutPrice(Firm(i)), RMul("1E-3", bond), "1E-6") ELSE {})
              \cup (IF RIsFinite(r.put) /\ RGt(debt, RMul("1E-6", bond))
                    THEN IF RGt(RAbs(cds), RMul("1E200", bond)) THEN {} ELSE
                         MustNear("contribution nets the put implied by the spread", r.contribution, RSub(r.put, cds), RAdd(RMul("0.001", bond), RMul(RAbs(cds), cdsScale)), "1E-11")
                    ELSE {}))
CcaSituations(k) ==
    LET at(P(_, _)) == \E j \in Idx(Calls(k)) : P(Calls(k)[j], Result(k, j)) IN
    Tag("inversion converges", at(LAMBDA i, r : r.converges)) \o Tag("inversion does not converge", at(LAMBDA i, r : ~r.converges))
    \o Tag("distressed", at(LAMBDA i, r : RLt(i.V, i.B))) \o Tag("negative rate", at(LAMBDA i, r : RLt(i.r, 0)))
=============================================================================

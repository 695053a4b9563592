------------------------------- MODULE CccMC -------------------------------
(* The constant-correlation likelihood on a lattice of two-period series.   *)
EXTENDS Dcc, TLC, Json
CONSTANTS Es, Ss, Rhos
VARIABLES x, done
Init == /\ x \in [e1 : {<<a, b>> : a \in Es, b \in Es}, e2 : {<<a, b>> : a \in Es, b \in Es},
                  s1 : {<<a, b>> : a \in Ss, b \in Ss}, s2 : {<<a, a>> : a \in Ss}, rho : Rhos]
        /\ done = FALSE
Next == ~done /\ PrintT("FRDS " \o ToJson(<<"SCEN", x>>)) /\ done' = TRUE /\ x' = x
Spec == Init /\ [][Next]_<<x, done>>
L(y) == CccLogL(y.e1, y.s1, y.e2, y.s2, y.rho)
Swap(y) == [e1 |-> y.e2, e2 |-> y.e1, s1 |-> y.s2, s2 |-> y.s1, rho |-> y.rho]
Symmetric == RNear(L(x), L(Swap(x)), 10, "1E-30")
\* without correlation the assets are separate
Separates == REq(x.rho, 0) => RNear(L(x), RAdd(LogL(x.e1, x.s1), LogL(x.e2, x.s2)), 10, "1E-30")
\* reflecting one asset and the correlation changes nothing
Reflect == RNear(L(x), L([x EXCEPT !.e1 = [i \in Idx(x.e1) |-> RNeg(x.e1[i])], !.rho = RNeg(x.rho)]), 10, "1E-30")
\* scaling one asset by 2 (variance by 4) shifts the likelihood by -T ln 2
Scale2 == LET y == [x EXCEPT !.e1 = SScale(2, x.e1), !.s1 = SScale(4, x.s1)] IN
          RNear(L(y), RSub(L(x), RMul(Len(x.e1), RLn(2))), 10, "1E-30")
\* the joint density is the marginal of one asset times the conditional of the other
Factors == LET z1 == Standardize(x.e1, x.s1)
               z2 == Standardize(x.e2, x.s2)
               rest == RSub(1, RSq(x.rho))
               n == Len(x.e1)
           IN RNear(L(x), RAdd(LogL(x.e1, x.s1),
                               LogL([i \in 1 .. n |-> RMul(RSqrt(x.s2[i]), RSub(z2[i], RMul(x.rho, z1[i])))], [i \in 1 .. n |-> RMul(rest, x.s2[i])])), 10, "1E-28")
\* the correlation component is what the joint density adds to the marginals
Component == \A i \in Idx(x.e1) : RNear(DccTerm(x.e1[i], x.e2[i], x.rho),
                 RSub(RSub(CccTerm(x.e1[i], x.e2[i], 1, 1, x.rho), LogL(<<x.e1[i]>>, <<"1">>)), LogL(<<x.e2[i]>>, <<"1">>)), 10, "1E-28")
\* and is limited beyond the largest correlation
Limited == \A r \in {"0.991", "0.9999", "1"} : /\ REq(DccTerm(x.e1[1], x.e2[1], r), DccTerm(x.e1[1], x.e2[1], RhoLimit))
                                               /\ REq(DccTerm(x.e1[1], x.e2[1], RNeg(r)), DccTerm(x.e1[1], x.e2[1], RNeg(RhoLimit)))
=============================================================================

-------------------------------- MODULE PinMC --------------------------------
(* Days on a lattice of counts and parameters: the mixture is a probability    *)
(* and the two factorisations are the mixture; emitted as scenarios.           *)
EXTENDS Pin, TLC, Json
CONSTANTS T, Counts, Ps, Es, Mus
VARIABLES p, B, S, done
vars == <<p, B, S, done>>
Init == B = <<>> /\ S = <<>> /\ done = FALSE /\ p \in [alpha: Ps, delta: Ps, eb: Es, es: Es, mu: Mus]
Day == ~done /\ Len(B) < T /\ (\E b, s \in Counts : B' = Append(B, b) /\ S' = Append(S, s)) /\ UNCHANGED <<p, done>>
Emit == ~done /\ Len(B) > 0 /\ PrintT("FRDS " \o ToJson(<<"SCEN", [p |-> p, B |-> B, S |-> S]>>)) /\ done' = TRUE /\ UNCHANGED <<p, B, S>>
Next == Day \/ Emit
Spec == Init /\ [][Next]_vars
Mass(l, b) == RExp(LogPoisson(b, l))
Direct(b, s) == RSum(<<RMul(WGood(p), RMul(Mass(RAdd(p.eb, p.mu), b), Mass(p.es, s))),
                       RMul(WBad(p), RMul(Mass(p.eb, b), Mass(RAdd(p.es, p.mu), s))),
                       RMul(WNone(p), RMul(Mass(p.eb, b), Mass(p.es, s)))>>)
IsMixture == \A t \in Idx(B) : RNear(RExp(DayLogL(p, B[t], S[t])), Direct(B[t], S[t]), 0, "1E-30")
\* Lin and Ke's terms
LinKe(b, s) ==
    LET e1 == RNeg(RAdd(p.mu, RMul(s, RLn(RAdd(1, RDiv(p.mu, p.es))))))
        e2 == RNeg(RAdd(p.mu, RMul(b, RLn(RAdd(1, RDiv(p.mu, p.eb))))))
        e3 == RNeg(RAdd(RMul(b, RLn(RAdd(1, RDiv(p.mu, p.eb)))), RMul(s, RLn(RAdd(1, RDiv(p.mu, p.es))))))
    IN  RSum(<<RNeg(p.eb), RNeg(p.es), RMul(b, RLn(RAdd(p.mu, p.eb))), RMul(s, RLn(RAdd(p.mu, p.es))),
               RLn(RSum(<<RMul(WGood(p), RExp(e1)), RMul(WBad(p), RExp(e2)), RMul(WNone(p), RExp(e3))>>))>>)
LinKeIsMixture == \A t \in Idx(B) : RNear(LinKe(B[t], S[t]), DayLogL(p, B[t], S[t]), 1, "1E-28")
\* mirroring buys and sells mirrors good and bad news
Mirrored == LET q == [alpha |-> p.alpha, delta |-> RSub(1, p.delta), eb |-> p.es, es |-> p.eb, mu |-> p.mu]
            IN  \A t \in Idx(B) : RNear(DayLogL(q, S[t], B[t]), DayLogL(p, B[t], S[t]), 1, "1E-28")
PinInUnit == RGe(PinOf(p), 0) /\ RLe(PinOf(p), 1)
=============================================================================

----------------------------- MODULE PinLLTrace -----------------------------
(***************************************************************************)
(* C19: both likelihoods, a day of the sample per step.                    *)
(*   in : [p: [alpha, delta, eb, es, mu], B, S]    out: [eho, lk]          *)
(* eho and lk are log-likelihoods.  acc = <<sum, sum of magnitudes,        *)
(* the largest exponent of the factorisation of Easley et al.>>            *)
(***************************************************************************)
EXTENDS TraceBase, Pin
VARIABLES c, t, acc
vars == <<c, t, acc>>
View == <<c, t>>
T(k) == Len(In(k).B)
Init == c \in 1 .. NCases /\ t = 0 /\ acc = <<0, 0, 0>>
\* exponents of the terms that factorisation multiplies out, largest magnitude
Exponent(p, b, s) ==
    LET m == RAdd(RMin2(b, s), RDiv(RMax2(b, s), 2))
        lxs == RLn(RDiv(p.es, RAdd(p.mu, p.es)))
        lxb == RLn(RDiv(p.eb, RAdd(p.mu, p.eb)))
        u == RMul(RSub(s, m), lxs)
        v == RMul(RSub(b, m), lxb)
    IN  SMaxAbs(<<u, v, RMul(m, lxb), RMul(m, lxs), RSub(RSub(u, RMul(m, lxb)), p.mu), RSub(RSub(v, RMul(m, lxs)), p.mu), RAdd(u, v), p.mu>>)
Magnitude(p, b, s) == RSum(<<p.eb, p.es, p.mu, RMul(b, RAbs(RLn(RAdd(p.mu, p.eb)))), RMul(s, RAbs(RLn(RAdd(p.mu, p.es)))),
                             RMul(RAdd(b, s), RSub(RAbs(RLn(RDiv(p.eb, RAdd(p.mu, p.eb)))), RLn(RDiv(p.es, RAdd(p.mu, p.es)))))>>)
Day ==
    /\ t >= 0 /\ t < T(c)
    /\ \E p \in {In(c).p}, b \in {In(c).B[t + 1]}, s \in {In(c).S[t + 1]} :
          acc' = <<RAdd(acc[1], DayLogL(p, b, s)), RAdd(acc[2], Magnitude(p, b, s)), RMax2(acc[3], Exponent(p, b, s))>>
    /\ t' = t + 1 /\ c' = c
Safe == RLt(acc[3], 650)
Bad2 == IF ~Returned(c) THEN MustD("returns", FALSE, Out(c).exc)
        ELSE MustNear("factorisation of Lin and Ke", Out(c).lk, acc[1], RAdd(1, acc[2]), "1E-12")
             \cup Must("the form of Lin and Ke stays finite", RIsFinite(Out(c).lk))
             \cup (IF Safe THEN MustNear("factorisation of Easley, Hvidkjaer and O'Hara", Out(c).eho, acc[1], RAdd(1, acc[2]), "1E-12")
                   ELSE Must("an overflowing factorisation is not mistaken for a likelihood",
                             ~RIsFinite(Out(c).eho) \/ RNear(Out(c).eho, acc[1], RAdd(1, acc[2]), "1E-9")))
Finish ==
    /\ t = T(c)
    /\ Report(c, Bad2, Tag("counts that overflow one form", ~Safe) \o Tag("zero counts", \E i \in 1 .. T(c) : REq(In(c).B[i], 0) \/ REq(In(c).S[i], 0))
                       \o Tag("one day", T(c) = 1))
    /\ t' = -1 /\ UNCHANGED <<c, acc>>
Next == Day \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

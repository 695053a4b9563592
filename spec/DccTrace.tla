------------------------------ MODULE DccTrace ------------------------------
(***************************************************************************)
(* C08: recorded conditional correlations are a behaviour of the           *)
(* pseudo-correlation process of Dcc.tla, one period per step.             *)
(*   in : [a, b, e1, s1, e2, s2]         out: [rho]                        *)
(***************************************************************************)
EXTENDS TraceBase, Dcc
VARIABLES c, t, z, q, q1, bad
vars == <<c, t, z, q, q1, bad>>
T(k) == Len(In(k).e1)
View == <<c, t>>
Init == c \in 1 .. NCases /\ t = 0 /\ z = <<>> /\ q = <<>> /\ q1 = <<>> /\ bad = {}
Shape(k) == Returned(k) /\ Len(Out(k).rho) = T(k)
Admissible(p) == RGe(p.a, 0) /\ RGe(p.b, 0) /\ RLe(RAdd(p.a, p.b), "1.000000000001")
InUnit(x) == RLe(RAbs(x), "1.000000001")
Begin ==
    /\ t = 0 /\ c' = c
    /\ IF ~Shape(c) THEN t' = T(c) + 1 /\ bad' = MustD("returns a correlation per period", FALSE, Out(c).exc) /\ UNCHANGED <<z, q, q1>>
       ELSE \E z1 \in {Standardize(In(c).e1, In(c).s1)}, z2 \in {Standardize(In(c).e2, In(c).s2)} :
            t' = 1 /\ z' = <<z1, z2>> /\ q' = QFirst(z1, z2) /\ q1' = QFirst(z1, z2) /\ bad' = {}
Period ==
    /\ t > 0 /\ t <= T(c)
    /\ bad' = bad
        \cup MustNear(IF t = 1 THEN "first correlation is the sample correlation" ELSE "correlation of the period",
                      Out(c).rho[t], RhoOf(q), 1, "1E-8")
        \cup Must("correlation within [-1, 1]", Admissible(In(c)) /\ RIsFinite(RhoOf(q)) => InUnit(Out(c).rho[t]))
        \cup (IF REq(In(c).a, 0) /\ REq(In(c).b, 0)
              THEN MustNear("constant without dynamics", Out(c).rho[t], Out(c).rho[1], 1, "1E-9") ELSE {})
    /\ q' = IF t < T(c) THEN QNext(In(c).a, In(c).b, q1, q, z[1][t], z[2][t]) ELSE q
    /\ t' = t + 1 /\ UNCHANGED <<c, z, q1>>
Finish ==
    /\ t = T(c) + 1
    /\ Report(c, bad, Tag("a = 0", REq(In(c).a, 0)) \o Tag("b = 0", REq(In(c).b, 0))
                      \o Tag("a + b = 1", REq(RAdd(In(c).a, In(c).b), 1))
                      \o (IF Shape(c) THEN Tag("a + b > 1", ~Admissible(In(c))) \o Tag("perfect correlation", RGe(RAbs(Out(c).rho[1]), "0.99999"))
                                           \o Tag("correlation changes sign", \E i \in 2 .. T(c) : RLt(RMul(Out(c).rho[1], Out(c).rho[i]), 0)) ELSE <<>>))
    /\ t' = -1 /\ UNCHANGED <<c, z, q, q1, bad>>
Next == Begin \/ Period \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

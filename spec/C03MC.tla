------------------------------- MODULE C03MC -------------------------------
(* Smoothing and bounds on a lattice of residual series: the consequences   *)
(* C03 states, on every series of up to N residuals.                        *)
EXTENDS Garch, TLC, Json, FiniteSets
CONSTANTS N, Resids
VARIABLES es, done
Init == es \in {<<e>> : e \in Resids} /\ done = FALSE
Grow == ~done /\ Len(es) < N /\ \E e \in Resids : es' = Append(es, e) /\ done' = FALSE
Emit == ~done /\ PrintT("FRDS " \o ToJson(<<"SCEN", [resids |-> es]>>)) /\ done' = TRUE /\ es' = es
Next == Grow \/ Emit
Spec == Init /\ [][Next]_<<es, done>>
B == VarBounds(es)
Constant == \A i, j \in Idx(es) : REq(es[i], es[j])
Ordered == ~done => \A i \in Idx(es) : RLe(B[i][1], B[i][2]) /\ RLe(0, B[i][1])
Positive == ~done => (~Constant => \A i \in Idx(es) : RGt(B[i][1], 0))
BackcastAverages == ~done => /\ RGe(RMul(Backcast(es), "1.0000000001"), SMin(SSq(es)))
                             /\ RLe(RMul(Backcast(es), "0.9999999999"), SMax(SSq(es)))
\* smoothing a series of equal squares from that square stays there
SteadyState == ~done => LET s == Smooth(Decay, [i \in Idx(es) |-> es[1]], RSq(es[1])) IN
                        \A i \in Idx(es) : RNear(s[i], RSq(es[1]), 0, "1E-30")
\* scaling the residuals by 2 scales the smoothed variances by 4
Scaling == ~done => LET s == Smooth(Decay, es, Backcast(es))
                        d == [i \in Idx(es) |-> RMul(2, es[i])]
                        s2 == Smooth(Decay, d, Backcast(d))
                    IN \A i \in Idx(es) : RNear(s2[i], RMul(4, s[i]), 0, "1E-30")
\* the log-likelihood, for the residuals and their smoothed variances plus one
V == [i \in Idx(es) |-> RAdd(1, Smooth(Decay, es, Backcast(es))[i])]
L == LogL(es, V)
\* in other units the density is divided by the unit
Units == ~done => RNear(LogL([i \in Idx(es) |-> RMul(2, es[i])], [i \in Idx(es) |-> RMul(4, V[i])]),
                        RSub(L, RMul(Len(es), RLn(2))), L, "1E-30")
\* it adds up over periods, does not see signs, and is largest at the squared residual
Adds == ~done => /\ RNear(L, RSum([i \in Idx(es) |-> LogL(<<es[i]>>, <<V[i]>>)]), L, "1E-30")
                 /\ RNear(L, LogL([i \in Idx(es) |-> RNeg(es[i])], V), L, "1E-30")
                 /\ \A i \in Idx(es) : ~REq(es[i], 0) => \A f \in {"0.5", "0.9", "1.1", "3"} :
                       RGt(LogL(<<es[i]>>, <<RSq(es[i])>>), LogL(<<es[i]>>, <<RMul(f, RSq(es[i]))>>))
\* the normal density: its height at zero, and how it falls
Density == ~done => \A i \in Idx(es) :
              /\ RNear(RMul(RSq(RExp(LogL(<<"0">>, <<V[i]>>))), RMul(RMul(2, RPi), V[i])), 1, 1, "1E-30")
              /\ RNear(RSub(LogL(<<"0">>, <<V[i]>>), LogL(<<es[i]>>, <<V[i]>>)), RDiv(RSq(es[i]), RMul(2, V[i])), L, "1E-28")
=============================================================================

---------------------------- MODULE LifecycleTrace ----------------------------
(***************************************************************************)
(* C06: a recorded history of calls on shared models is a behaviour of     *)
(* Lifecycle.tla.                                                          *)
(*   in : [hist: sequence of <<op, object>>]                               *)
(*   out: [ref: object -> digest of the object freshly estimated alone,    *)
(*         refret: op -> object -> digest of what the call returns,        *)
(*         events: sequence of [ret, state: object -> [est, digest]]]      *)
(* An unestimated object has the digest "blank".                           *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES c, i, est, bad
vars == <<c, i, est, bad>>
U == {"u1", "u2", "v1", "v2"}
B == {"d12", "d21", "j12", "da", "cc"}
P == [d12 |-> {"u1", "u2"}, d21 |-> {"u1", "u2"}, j12 |-> {"v1", "v2"}, da |-> {"u2"}, cc |-> {}]
M == INSTANCE Lifecycle WITH Uni <- U, Biv <- B, Parts <- P

H(k) == In(k).hist
E(k) == Out(k).events
Init == c \in 1 .. NCases /\ i = 1 /\ bad = {} /\ M!LInit
Name(o, what) == what \o " " \o o
\* what the history so far makes observable
Observe(k, n, st) ==
    LET ev == E(k)[n]
        seen == DOMAIN ev.state
    IN  UNION {Must(Name(o, "estimated exactly when it was asked to be:"), ev.state[o].est = st[o]) : o \in seen}
        \cup UNION {Must(Name(o, "has the estimates of a fresh estimation:"), st[o] => ev.state[o].digest = Out(k).ref[o]) : o \in seen}
        \cup UNION {Must(Name(o, "unestimated object shows no estimates:"), ~st[o] => ev.state[o].digest = "blank") : o \in seen}
        \cup Must("call returns what it returns on fresh models: " \o H(k)[n][1] \o " " \o H(k)[n][2],
                  ev.ret = Out(k).refret[H(k)[n][1]][H(k)[n][2]])
Step ==
    /\ i <= Len(H(c)) /\ i > 0 /\ Returned(c)
    /\ M!Apply(H(c)[i][1], H(c)[i][2])
    /\ bad' = bad \cup Observe(c, i, est')
    /\ i' = i + 1 /\ c' = c
Done == i = Len(H(c)) + 1 \/ ~Returned(c)
Finish ==
    /\ i > 0 /\ Done
    /\ Report(c, bad \cup MustD("history runs without an error", Returned(c), Out(c).exc \o " " \o (IF Returned(c) THEN "" ELSE Out(c).msg)),
              LET ops == {H(c)[n][1] : n \in Idx(H(c))} IN
              Tag("fit", "fit" \in ops) \o Tag("ll", "ll" \in ops) \o Tag("corr", "corr" \in ops) \o Tag("prep", "prep" \in ops)
              \o Tag("built on estimated models", \E m, n \in Idx(H(c)) : m < n /\ H(c)[m][1] = "fit" /\ H(c)[n][1] = "new")
              \o Tag("repeated fit", \E m, n \in Idx(H(c)) : m < n /\ H(c)[m] = H(c)[n] /\ H(c)[m][1] = "fit")
              \o Tag("all objects estimated", \A o \in U \cup B : est[o] \/ ~(\E n \in Idx(H(c)) : H(c)[n][2] = o)))
    /\ i' = -1 /\ UNCHANGED <<c, est, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

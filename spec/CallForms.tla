------------------------------ MODULE CallForms ------------------------------
(* All forms of call of every documented signature: how many arguments by    *)
(* position, which optional ones omitted, which given as their default.      *)
EXTENDS Signature, TLC, Json
CONSTANTS Layout
VARIABLES s, n, omitted, plain, layout, done
vars == <<s, n, omitted, plain, layout, done>>
Opt(x) == NReq(x) + 1 .. NPar(x)
\* of the optional arguments that are passed: all as their default, all other,
\* or exactly one other
Given(x, p, o) == {k \in Opt(x) : k \notin o}
Choices(g) == {g, {}} \cup {g \ {k} : k \in g}
Init == /\ s \in {Signatures[i] : i \in DOMAIN Signatures}
        /\ n \in 0 .. NPar(s)
        /\ omitted \in {o \in SUBSET {k \in Opt(s) : k > n} : n >= NReq(s) \/ o \in {{}, Opt(s)}}
        /\ plain \in Choices(Given(s, n, omitted))
        /\ layout \in Layout
        /\ done = FALSE
Value(k) == IF k <= NReq(s) THEN Data ELSE IF k \in plain THEN Default(s, k) ELSE Other(s, k)
Call == [pos |-> [k \in 1 .. n |-> Value(k)],
         kw |-> [x \in {ParName(s, k) : k \in {j \in n + 1 .. NPar(s) : j \notin omitted}} |-> Value(CHOOSE k \in 1 .. NPar(s) : ParName(s, k) = x)]]
Emit == /\ ~done
        /\ PrintT("FRDS " \o ToJson(<<"SCEN", [f |-> s.f, layout |-> layout, pos |-> Call.pos, kw |-> Call.kw, all |-> Binding(s, Call)]>>))
        /\ done' = TRUE /\ UNCHANGED <<s, n, omitted, plain, layout>>
Next == Emit
Spec == Init /\ [][Next]_vars
NamesAreDistinct == Cardinality({ParName(s, k) : k \in 1 .. NPar(s)}) = NPar(s)
FormsAreWellFormed == WellFormed(s, Call)
\* nothing is left without a value, and only optional parameters take their default silently
EveryParameterIsBound == \A k \in 1 .. NPar(s) : Binding(s, Call)[k] \in {Data} \cup (IF k > NReq(s) THEN {Default(s, k), Other(s, k)} ELSE {})
\* saying everything by position means the same
Canonical == Binding(s, Explicit(s, Binding(s, Call))) = Binding(s, Call) /\ WellFormed(s, Explicit(s, Binding(s, Call)))
\* what is omitted or given as documented is the default
DefaultsAreDefaults == \A k \in Opt(s) : (k \in omitted \/ k \in plain) => Binding(s, Call)[k] = Default(s, k)
=============================================================================

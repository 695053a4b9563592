------------------------------ MODULE CallTrace ------------------------------
(***************************************************************************)
(* Histories of calls on one object (or one set of arguments).             *)
(*   in : [..., calls: <<[before, same, ...], ...>>]                       *)
(*        before: what happened to the process's global state before       *)
(*        same: index of the first call of the history with equal          *)
(*              arguments                                                  *)
(*   out: [results: <<[exc, value, ...], ...>>, inputs_ok, global_ok]      *)
(* The result of a call is a function of the object's data and the call's  *)
(* arguments only: CallClauses(k, n) says which function, the clauses here *)
(* that nothing else matters.                                              *)
(***************************************************************************)
EXTENDS TraceBase
CONSTANTS CallClauses(_, _), Situations(_)
VARIABLES c, n, bad
vars == <<c, n, bad>>
View == <<c, n>>
Calls(k) == In(k).calls
Result(k, i) == Out(k).results[i]
ReturnedAt(k, i) == Result(k, i).exc = ""
Usable(k) == Returned(k) /\ Len(Out(k).results) = Len(Calls(k))
Init == c \in 1 .. NCases /\ n = 0 /\ bad = {}
Call ==
    /\ n >= 0 /\ Usable(c) /\ n < Len(Calls(c))
    /\ bad' = bad \cup CallClauses(c, n + 1)
         \cup Must("equal calls give equal results", Result(c, Calls(c)[n + 1].same) = Result(c, n + 1))
    /\ n' = n + 1 /\ c' = c
Finish ==
    /\ n >= 0 /\ (Usable(c) => n = Len(Calls(c)))
    /\ Report(c, bad \cup (IF ~Usable(c) THEN MustD("the object can be built", FALSE, Out(c).exc)
                           ELSE Must("arguments are left as they were", Out(c).inputs_ok)
                                \cup Must("the global generators are left as they were", Out(c).global_ok)),
              IF ~Usable(c) THEN <<>> ELSE
              Situations(c) \o Tag("repeated call", \E i \in Idx(Calls(c)) : Calls(c)[i].same < i)
              \o Tag("disturbed", \E i \in Idx(Calls(c)) : Calls(c)[i].before # "none"))
    /\ n' = -1 /\ UNCHANGED <<c, bad>>
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

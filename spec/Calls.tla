-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Histories of calls with disturbances of the global state in between.    *)
(* What a call returns is a function of its arguments alone: Result is the *)
(* (uninterpreted) function; the state that must not matter is the hidden  *)
(* state g of the process (global generators, caches, earlier results).    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS L, Kinds, Disturb       \* calls 1 .. Kinds, disturbances
VARIABLES hist, g, results
vars == <<hist, g, results>>
Result(op) == op
Init == hist = <<>> /\ g = 0 /\ results = <<>>
Call(op, d) == /\ Len(hist) < L
               /\ hist' = Append(hist, <<op, d>>)
               /\ g' = IF d = "none" THEN g ELSE Len(hist) + 1
               /\ results' = Append(results, Result(op))
Emit == Len(hist) = L /\ PrintT("FRDS " \o ToJson(<<"SCEN", [hist |-> hist]>>)) /\ hist' = Append(hist, <<0, "end">>) /\ UNCHANGED <<g, results>>
Next == (\E op \in 1 .. Kinds, d \in Disturb : Call(op, d)) \/ Emit
Spec == Init /\ [][Next]_vars
Pure == \A m, n \in 1 .. Len(results) : hist[m][1] = hist[n][1] => results[m] = results[n]
=============================================================================

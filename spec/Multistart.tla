------------------------------ MODULE Multistart ------------------------------
(***************************************************************************)
(* Estimation from several starting values, of a model that keeps the best *)
(* (C34).  A run ends at a level (its objective), says it failed at a      *)
(* level, or says it succeeded where the objective is not a number or not  *)
(* finite.  The model keeps the best successful level; each estimation     *)
(* starts afresh.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS S, R, Levels
VARIABLES best, calls, runs
vars == <<best, calls, runs>>
None == 0
Ends == {"ok", "fail"} \X Levels \cup {<<"ok", -1>>}     \* -1: success that is not finite
Init == best = None /\ calls = <<>> /\ runs = <<>>
Good(e) == e[1] = "ok" /\ e[2] > 0
Run == /\ Len(runs) < S
       /\ \E e \in Ends : /\ runs' = Append(runs, e)
                          /\ best' = IF Good(e) /\ (best = None \/ e[2] < best) THEN e[2] ELSE best
       /\ calls' = calls
Again == /\ Len(runs) = S /\ Len(calls) < R
         /\ calls' = Append(calls, runs) /\ runs' = <<>> /\ best' = None
Emit == /\ Len(calls) = R
        /\ PrintT("FRDS " \o ToJson(<<"SCEN", [pin |-> calls]>>))
        /\ calls' = Append(calls, <<>>) /\ UNCHANGED <<best, runs>>
Next == (Len(calls) < R /\ (Run \/ Again)) \/ Emit
Spec == Init /\ [][Next]_vars
IsBest == /\ best = None <=> ~\E i \in 1 .. Len(runs) : Good(runs[i])
          /\ best # None => /\ \E i \in 1 .. Len(runs) : Good(runs[i]) /\ runs[i][2] = best
                            /\ \A i \in 1 .. Len(runs) : Good(runs[i]) => best <= runs[i][2]
=============================================================================

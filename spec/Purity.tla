------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* Programs that call pure operations: Kinds operations with K(eep) or     *)
(* without, between which the program seeds or draws from the global       *)
(* generators, overwrites what it was given, and refills the arrays it     *)
(* passes with other values (two versions of the data).  An operation has  *)
(* its own generator, seeded at the call; what it returns depends on the   *)
(* values passed and that generator.  Impure gives one operation the       *)
(* global generator, or lets it remember the arrays it has seen: then Pure *)
(* fails, so the histories can tell.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS L, Kinds, Impure
VARIABLES hist, global, data, seen, results
vars == <<hist, global, data, seen, results>>
Before == {"none", "npseed", "draw", "refill"}
After == {"none", "scribble"}
Init == hist = <<>> /\ global = 0 /\ data = 0 /\ seen = <<>> /\ results = <<>>
Disturbed(g, b) == CASE b = "none" -> g [] b = "npseed" -> 7 [] b = "draw" -> g + 1 [] b = "refill" -> g
Call(op, kept, b, a) ==
    /\ Len(hist) < L
    /\ \E g \in {Disturbed(global, b)}, d \in {IF b = "refill" THEN 1 - data ELSE data} :
         /\ data' = d
         /\ results' = Append(results, IF Impure = "generator" /\ op = 1 THEN <<op, d, g>>
                                       ELSE IF Impure = "memory" /\ op \in DOMAIN seen THEN <<op, seen[op], 0>> ELSE <<op, d, 0>>)
         /\ seen' = IF op \in DOMAIN seen THEN seen ELSE (op :> d) @@ seen
         /\ global' = IF Impure = "generator" /\ op = 1 THEN g + 1 ELSE g
    /\ hist' = Append(hist, [op |-> op, kept |-> kept, before |-> b, after |-> a])
Emit == Len(hist) = L /\ PrintT("FRDS " \o ToJson(<<"SCEN", [steps |-> hist]>>)) /\ hist' = Append(hist, <<>>) /\ UNCHANGED <<global, data, seen, results>>
Next == (\E op \in 1 .. Kinds, k \in BOOLEAN, b \in Before, a \in After : (k => a = "none") /\ Call(op, k, b, a)) \/ Emit
Spec == Init /\ [][Next]_vars
\* the version of the data at the n-th call
Version(n) == Cardinality({m \in 1 .. n : hist[m].before = "refill"}) % 2
Pure == \A n \in 1 .. Len(results) : results[n] = <<hist[n].op, Version(n), 0>>
=============================================================================

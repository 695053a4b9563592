--------------------------- MODULE MultistartFaults ---------------------------
(* An estimation that starts from the best of the one before, or keeps the last. *)
EXTENDS Multistart
Keeps == /\ Len(runs) = S /\ Len(calls) < R
         /\ calls' = Append(calls, runs) /\ runs' = <<>> /\ UNCHANGED best
Latest == /\ Len(runs) < S
          /\ \E e \in Ends : runs' = Append(runs, e) /\ best' = IF Good(e) THEN e[2] ELSE best
          /\ calls' = calls
=============================================================================

------------------------------ MODULE Estimation ------------------------------
(***************************************************************************)
(* Estimation when the optimiser may fail (C34).                           *)
(*                                                                         *)
(* A joint model has two parts.  Estimating runs the optimiser, each run   *)
(* of which                                                                *)
(*   "ok"     ends successfully, not worse than it started,                *)
(*   "above"  claims success at a point worse than where it started,       *)
(*   "fail"   says it has not succeeded.                                   *)
(* A part (and a joint model estimated in one step, OneStep) that ends     *)
(* above its start is tried once more; the second stage of a two-step      *)
(* model cannot end above the start, which is the best of a grid.          *)
(* A joint model tries its unestimated parts first, and only runs its own  *)
(* stage to a result when it has both: with a part missing its objective   *)
(* is not a number, which is a failure whatever the optimiser is asked.    *)
(* Estimation of an estimated model does nothing.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS L,          \* calls in a history
          F,          \* runs of the optimiser that may go wrong
          OneStep     \* BOOLEAN: the joint model is estimated in one step
Parts == {"first", "second"}
Objects == Parts \cup {"joint"}
Outcomes == {"ok", "above", "fail"}

VARIABLES est,        \* Objects -> how it was estimated: "no", "yes", "again" (second attempt)
          ops,        \* calls so far
          todo,       \* what the running call has still to estimate, in order
          again,      \* the object at the head of todo is tried a second time
          runs,       \* outcomes of the optimiser's runs so far
          last,       \* last[o]: outcome of the last run for o
          begun       \* est when the running call began
vars == <<est, ops, todo, again, runs, last, begun>>
Init == /\ est = [o \in Objects |-> "no"] /\ ops = <<>> /\ todo = <<>> /\ again = FALSE
        /\ runs = <<>> /\ last = [o \in Objects |-> "none"] /\ begun = est
Has(o) == est[o] # "no"
Idle == todo = <<>>
Quiet == \A i \in 1 .. Len(runs) : runs[i] = "ok"

Missing(o) == IF Has(o) THEN <<>> ELSE <<o>>
Call(o) ==
    /\ Idle /\ Len(ops) < L
    /\ ops' = Append(ops, o) /\ begun' = est
    /\ todo' = IF o = "joint" THEN (IF Has("joint") THEN <<>> ELSE Missing("first") \o Missing("second") \o <<"joint">>)
               ELSE Missing(o)
    /\ UNCHANGED <<est, again, runs, last>>
\* what the optimiser may do next
Possible(o) ==
    IF o = "joint" /\ ~(Has("first") /\ Has("second")) THEN {"fail"}
    ELSE {"ok"} \cup (IF Len(SelectSeq(runs, LAMBDA r : r # "ok")) < F THEN (IF o = "joint" /\ ~OneStep THEN {"fail"} ELSE {"above", "fail"}) ELSE {})
Run ==
    /\ ~Idle
    /\ \E out \in Possible(Head(todo)) :
         LET o == Head(todo) IN
         /\ last' = [last EXCEPT ![o] = out]
         /\ runs' = IF o = "joint" /\ ~(Has("first") /\ Has("second")) THEN runs ELSE Append(runs, out)
         /\ IF out = "above" /\ ~again
              THEN again' = TRUE /\ UNCHANGED <<est, todo>>
              ELSE /\ again' = FALSE /\ todo' = Tail(todo)
                   /\ est' = [est EXCEPT ![o] = IF out = "ok" THEN (IF again THEN "again" ELSE "yes") ELSE "no"]
         /\ UNCHANGED <<ops, begun>>
Emit == /\ Idle /\ Len(ops) = L
        /\ PrintT("FRDS " \o ToJson(<<"SCEN", [ops |-> ops, runs |-> runs, onestep |-> OneStep, est |-> est]>>))
        /\ ops' = Append(ops, "end") /\ UNCHANGED <<est, todo, again, runs, last, begun>>
Next == (\E o \in Objects : Call(o)) \/ Run \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Run)

Together == Has("joint") => Has("first") /\ Has("second")
Earned == \A o \in Objects : Has(o) <=> last[o] = "ok"
Sticky == [][\A o \in Objects : Has(o) => est'[o] = est[o]]_vars
\* a call without a failing run succeeds, and one that estimates nothing changes nothing
Answered == Idle /\ Quiet => \A i \in 1 .. Len(ops) : ops[i] \in Objects => Has(ops[i])
AtMostTwice == again => last[Head(todo)] = "above"
Ends == (~Idle) ~> Idle
=============================================================================

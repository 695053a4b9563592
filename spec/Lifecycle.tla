------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* Life cycle of estimated models that share components (C06).             *)
(*                                                                         *)
(* Objects are univariate models and bivariate models built on them.  The  *)
(* only state a user can tell apart is which objects have been estimated:  *)
(* an estimated object has one value (its estimates, residuals and         *)
(* variances), fixed by its data.  Estimating a bivariate model estimates  *)
(* its components first; asking it for correlations estimates the          *)
(* components only.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Uni, Biv,      \* objects
          Parts          \* Biv -> components in Uni (shared between models)
Objects == Uni \cup Biv

VARIABLE est             \* Objects -> BOOLEAN
LInit == est = [o \in Objects |-> FALSE]

Set(S) == [o \in Objects |-> est[o] \/ o \in S]
PartsOf(o) == IF o \in Biv THEN Parts[o] ELSE {}

FitOp(o)  == est' = Set({o} \cup PartsOf(o))
CorrOp(o) == o \in Biv /\ est' = Set(PartsOf(o))
\* likelihood at some other parameters: for a bivariate model once its parts are estimated
LLOp(o)   == (\A u \in PartsOf(o) : est[u]) /\ est' = est
\* building a bivariate model on existing components (again): it is not estimated, they stay as they are
NewOp(o)  == o \in Biv /\ est' = [est EXCEPT ![o] = FALSE]
\* preparation of starting values
PrepOp(o) == o \in Uni /\ est' = est

Ops == {"fit", "corr", "ll", "prep", "new"}
Apply(op, o) == CASE op = "fit" -> FitOp(o) [] op = "corr" -> CorrOp(o) [] op = "ll" -> LLOp(o) [] op = "prep" -> PrepOp(o) [] op = "new" -> NewOp(o)

LNext == \E op \in Ops, o \in Objects : Apply(op, o)
LSpec == LInit /\ [][LNext]_est

\* estimates are lost only with the model, and a bivariate model is estimated only with its parts
NeverLost == [][\A o \in Objects : est[o] /\ ~est'[o] => NewOp(o)]_est
PartsFirst == \A o \in Biv : est[o] => \A u \in Parts[o] : est[u]
\* estimating twice is estimating once
Idempotent == \A o \in Objects : est[o] => Set({o} \cup PartsOf(o)) = est
\* the order of two estimations does not matter
Commute == \A o, q \in Objects : LET S == {o} \cup PartsOf(o) \cup {q} \cup PartsOf(q) IN
              Set(S) = [x \in Objects |-> Set({q} \cup PartsOf(q))[x] \/ x \in {o} \cup PartsOf(o)]
=============================================================================

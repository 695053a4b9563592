--------------------------- MODULE EstimationFaults ---------------------------
(* Estimating again what is estimated; a joint model run without its parts. *)
EXTENDS Estimation
Everything(o) == <<o>>
Anything(o) == {"ok", "fail"}
=============================================================================

---------------------------- MODULE DatasetFaults ----------------------------
(* An access that hands out the cache's own index. *)
EXTENDS Dataset
OnlyIndex == {"index"}
=============================================================================

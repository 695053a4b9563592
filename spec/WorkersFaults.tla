---------------------------- MODULE WorkersFaults ----------------------------
(* Workers whose slices overlap, miss the remainder, or do not wait. *)
EXTENDS Workers
NoRemainder(w) == N \div W
FromTheStart(w) == w * (F \div W)
JoinEarly == /\ phase = "grow" /\ \E w \in Ws : at[w] = GrowJobs(w)
             /\ phase' = "score" /\ at' = [w \in Ws |-> 0] /\ UNCHANGED <<W, F, N, busy, trees, score>>
=============================================================================

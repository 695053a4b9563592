------------------------------- MODULE Workers -------------------------------
(***************************************************************************)
(* The isolation forest's worker threads: W of them, each given one slice  *)
(* of the trees and then one slice of the observations, computed as the    *)
(* code computes them.  Every interleaving is explored; a tree is          *)
(* determined by its number, a score by the trees that existed when it was *)
(* computed.                                                               *)
(*                                                                         *)
(* Workers implements Forest, and the final result does not depend on W or *)
(* on the interleaving.                                                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS MaxW, MaxF, MaxN
VARIABLES W, F, N,        \* workers, trees, observations: fixed at the start
          phase,          \* "grow", "score", "done"
          at,             \* at[w]: jobs worker w has completed in this phase
          busy,           \* busy[w]: worker w is in the middle of scoring
          trees,          \* trees[i]: the tree in slot i, or -1
          score           \* score[o]: the trees observation o was scored from, or {-1}
vars == <<W, F, N, phase, at, busy, trees, score>>
Ws == 0 .. W - 1
\* slices, as in IsolationForest::grow and ::calculateAnomalyScores
GrowJobs(w) == LET q == F \div W IN IF w = 0 THEN F - q * (W - 1) ELSE q
GrowFirst(w) == LET q == F \div W IN IF w = 0 THEN 0 ELSE GrowJobs(0) + (w - 1) * q
ScoreFirst(w) == LET q == N \div W IN IF w < W - 1 THEN w * q ELSE N - (N - q * w)
ScoreJobs(w) == LET q == N \div W IN IF w < W - 1 THEN q ELSE N - q * w
Init == /\ W \in 1 .. MaxW /\ F \in 1 .. MaxF /\ N \in 1 .. MaxN
        /\ phase = "grow" /\ at = [w \in Ws |-> 0] /\ busy = [w \in Ws |-> FALSE]
        /\ trees = [i \in 0 .. F - 1 |-> -1] /\ score = [o \in 0 .. N - 1 |-> {-1}]
        /\ PrintT("FRDS " \o ToJson(<<"SCEN", [workers |-> W, forest |-> F, rows |-> N]>>))
Grow(w) == /\ phase = "grow" /\ at[w] < GrowJobs(w)
           /\ LET i == GrowFirst(w) + at[w] IN trees' = [trees EXCEPT ![i] = i]
           /\ at' = [at EXCEPT ![w] = @ + 1] /\ UNCHANGED <<W, F, N, phase, busy, score>>
JoinGrow == /\ phase = "grow" /\ \A w \in Ws : at[w] = GrowJobs(w)
            /\ phase' = "score" /\ at' = [w \in Ws |-> 0] /\ UNCHANGED <<W, F, N, busy, trees, score>>
BeginScore(w) == /\ phase = "score" /\ ~busy[w] /\ at[w] < ScoreJobs(w)
                 /\ busy' = [busy EXCEPT ![w] = TRUE] /\ UNCHANGED <<W, F, N, phase, at, trees, score>>
EndScore(w) == /\ phase = "score" /\ busy[w]
               /\ LET o == ScoreFirst(w) + at[w] IN score' = [score EXCEPT ![o] = {trees[i] : i \in 0 .. F - 1}]
               /\ at' = [at EXCEPT ![w] = @ + 1] /\ busy' = [busy EXCEPT ![w] = FALSE] /\ UNCHANGED <<W, F, N, phase, trees>>
JoinScore == /\ phase = "score" /\ \A w \in Ws : at[w] = ScoreJobs(w)
             /\ phase' = "done" /\ UNCHANGED <<W, F, N, at, busy, trees, score>>
Next == JoinGrow \/ JoinScore \/ \E w \in Ws : Grow(w) \/ BeginScore(w) \/ EndScore(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every slot belongs to exactly one worker
Partition == /\ \A i \in 0 .. F - 1 : Cardinality({w \in Ws : i >= GrowFirst(w) /\ i < GrowFirst(w) + GrowJobs(w)}) = 1
             /\ \A o \in 0 .. N - 1 : Cardinality({w \in Ws : o >= ScoreFirst(w) /\ o < ScoreFirst(w) + ScoreJobs(w)}) = 1
             /\ \A w \in Ws : /\ GrowJobs(w) >= 0 /\ ScoreJobs(w) >= 0
                              /\ GrowFirst(w) + GrowJobs(w) <= F /\ ScoreFirst(w) + ScoreJobs(w) <= N
\* the result is the same whatever W and the interleaving
Deterministic == phase = "done" => /\ trees = [i \in 0 .. F - 1 |-> i]
                                   /\ score = [o \in 0 .. N - 1 |-> 0 .. F - 1]
Terminates == <>(phase = "done")
\* refinement
Abstract == INSTANCE Forest WITH nTrees <- F, nObs <- N,
    grown <- {i \in 0 .. F - 1 : trees[i] # -1},
    begun <- {o \in 0 .. N - 1 : score[o] # {-1}} \cup {ScoreFirst(w) + at[w] : w \in {v \in Ws : busy[v]}},
    scored <- {o \in 0 .. N - 1 : score[o] # {-1}},
    returned <- phase = "done"
Implements == Abstract!FSpec
=============================================================================

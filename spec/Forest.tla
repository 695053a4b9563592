-------------------------------- MODULE Forest --------------------------------
(***************************************************************************)
(* What the isolation forest's workers do together, whoever does it: every *)
(* tree is grown once; when all are, every observation is scored once,     *)
(* from all trees; then the call returns.                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
VARIABLES nTrees,   \* trees and observations: given
          nObs,
          grown,    \* trees that have been grown
          begun,    \* observations whose scoring has begun
          scored,   \* observations that have a score
          returned
fvars == <<nTrees, nObs, grown, begun, scored, returned>>
TreeIds == 0 .. nTrees - 1
ObsIds == 0 .. nObs - 1
FInit == grown = {} /\ begun = {} /\ scored = {} /\ returned = FALSE
CanGrow(i) == ~returned /\ i \in TreeIds \ grown /\ begun = {}
CanBegin(o) == ~returned /\ grown = TreeIds /\ o \in ObsIds \ begun
CanEnd(o) == ~returned /\ o \in begun \ scored
CanReturn == ~returned /\ grown = TreeIds /\ scored = ObsIds
GrowTree(i) == CanGrow(i) /\ grown' = grown \cup {i} /\ UNCHANGED <<begun, scored, returned>>
BeginScore(o) == CanBegin(o) /\ begun' = begun \cup {o} /\ UNCHANGED <<grown, scored, returned>>
EndScore(o) == CanEnd(o) /\ scored' = scored \cup {o} /\ UNCHANGED <<grown, begun, returned>>
Return == CanReturn /\ returned' = TRUE /\ UNCHANGED <<grown, begun, scored>>
FNext == /\ UNCHANGED <<nTrees, nObs>>
         /\ \/ \E i \in TreeIds : GrowTree(i)
            \/ \E o \in ObsIds : BeginScore(o) \/ EndScore(o)
            \/ Return
FSpec == FInit /\ [][FNext]_fvars
\* consequences
ScoredFromWholeForest == begun # {} => grown = TreeIds
ReturnsComplete == returned => grown = TreeIds /\ scored = ObsIds
=============================================================================

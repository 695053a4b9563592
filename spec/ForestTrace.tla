----------------------------- MODULE ForestTrace -----------------------------
(***************************************************************************)
(* C25.  in : [n, forestSize, runs: <<[workers, delay, before]>>]          *)
(*       out: [exc, runs: <<[events: <<[what, index]>>, scores, trees]>>]  *)
(*            trees: a digest of the recorded trees                        *)
(* Each run's events must be a behaviour of Forest (whatever the number of *)
(* workers and the interleaving) and its result that of the first run.     *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES c, r, e, nTrees, nObs, grown, begun, scored, returned, bad
F == INSTANCE Forest
vars == <<c, r, e, nTrees, nObs, grown, begun, scored, returned, bad>>
View == <<c, r, e>>
Runs(k) == Out(k).runs
Events(k, i) == Runs(k)[i].events
Init == /\ c \in 1 .. NCases /\ r = 1 /\ e = 0 /\ bad = {}
        /\ nTrees = In(c).forestSize /\ nObs = In(c).n /\ F!FInit
Live == r > 0 /\ Returned(c) /\ r <= Len(Runs(c))
Ev == Events(c, r)[e + 1]
More == Live /\ e < Len(Events(c, r))
Step == /\ More
        /\ \/ Ev.what = "g" /\ F!GrowTree(Ev.index)
           \/ Ev.what = "s" /\ F!BeginScore(Ev.index)
           \/ Ev.what = "d" /\ F!EndScore(Ev.index)
        /\ e' = e + 1 /\ UNCHANGED <<c, r, nTrees, nObs, bad>>
Why == CASE Ev.what = "g" -> (IF Ev.index \in grown THEN "every tree is grown once" ELSE IF begun # {} THEN "trees are grown before scoring begins" ELSE "trees are numbered below the forest size")
         [] Ev.what = "s" -> (IF grown # F!TreeIds THEN "scoring begins when every tree is grown" ELSE "every observation is scored once")
         [] OTHER -> "scores are those begun"
Stuck == /\ More
         /\ ~(\/ Ev.what = "g" /\ F!CanGrow(Ev.index)
              \/ Ev.what = "s" /\ F!CanBegin(Ev.index)
              \/ Ev.what = "d" /\ F!CanEnd(Ev.index))
         /\ bad' = bad \cup {<<Why, "run " \o ToString(r) \o " event " \o ToString(e + 1)>>}
         \* the event's effect, so that the rest can still be judged
         /\ grown' = (IF Ev.what = "g" THEN grown \cup {Ev.index} ELSE grown)
         /\ begun' = (IF Ev.what = "s" THEN begun \cup {Ev.index} ELSE begun)
         /\ scored' = (IF Ev.what = "d" THEN scored \cup {Ev.index} ELSE scored)
         /\ e' = e + 1 /\ UNCHANGED <<c, r, nTrees, nObs, returned>>
\* the call returned after these events
EndRun == /\ Live /\ e = Len(Events(c, r))
          /\ bad' = bad \cup Must("every tree is grown before the call returns", grown = F!TreeIds)
                        \cup Must("every observation is scored before the call returns", scored = F!ObsIds)
                        \cup MustD("scores do not depend on workers, schedule or history", Runs(c)[r].scores = Runs(c)[1].scores, In(c).runs[r])
                        \cup MustD("trees do not depend on workers, schedule or history", Runs(c)[r].trees = Runs(c)[1].trees, In(c).runs[r])
          /\ r' = r + 1 /\ e' = 0 /\ grown' = {} /\ begun' = {} /\ scored' = {} /\ UNCHANGED <<c, nTrees, nObs, returned>>
\* an interleaving of workers: consecutive events of one phase that are not of consecutive jobs
Shuffled(k, i) == \E j \in 2 .. Len(Events(k, i)) : Events(k, i)[j].what = "g" /\ Events(k, i)[j - 1].what = "g" /\ Events(k, i)[j].index # Events(k, i)[j - 1].index + 1
Overlap(k, i) == \E j \in 2 .. Len(Events(k, i)) : Events(k, i)[j].what = "s" /\ Events(k, i)[j - 1].what = "s"
Finish == /\ r > 0 /\ (~Returned(c) \/ r > Len(Runs(c)))
          /\ Report(c, bad \cup MustD("returns", Returned(c), Out(c).exc) \cup (IF Returned(c) THEN Must("all runs returned", Len(Runs(c)) = Len(In(c).runs)) ELSE {}),
                    IF ~Returned(c) THEN <<>> ELSE
                    Tag("trees grown out of order", \E i \in Idx(Runs(c)) : Shuffled(c, i))
                    \o Tag("observations scored concurrently", \E i \in Idx(Runs(c)) : Overlap(c, i))
                    \o Tag("fewer trees than workers", \E i \in Idx(Runs(c)) : In(c).forestSize < In(c).runs[i].workers)
                    \o Tag("fewer observations than workers", \E i \in Idx(Runs(c)) : In(c).n < In(c).runs[i].workers)
                    \o Tag("unknown number of processors", \E i \in Idx(Runs(c)) : In(c).runs[i].workers = 0)
                    \o Tag("after other calls", \E i \in Idx(Runs(c)) : In(c).runs[i].before \notin {"none", "process"})
                    \o Tag("another process", \E i \in Idx(Runs(c)) : In(c).runs[i].before = "process"))
          /\ r' = -1 /\ UNCHANGED <<c, e, nTrees, nObs, grown, begun, scored, returned, bad>>
Next == Step \/ Stuck \/ EndRun \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

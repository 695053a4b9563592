----------------------------- MODULE IForestTrace -----------------------------
(***************************************************************************)
(* C24.  in : [num, chars, index, treeSize, forestSize, seed, name]        *)
(*       out: [exc, scores, index, columns, trees, untouched]              *)
(* One step per tree, accumulating every observation's path lengths.       *)
(***************************************************************************)
EXTENDS TraceBase, IForest
VARIABLES c, t, acc, bad
vars == <<c, t, acc, bad>>
View == <<c, t>>
N(k) == Len(In(k).index)
D(k) == [num |-> In(k).num, chars |-> In(k).chars, n |-> N(k), treeSize |-> In(k).treeSize, limit |-> HeightLimit(In(k).treeSize)]
Trees(k) == Out(k).trees
Init == c \in 1 .. NCases /\ t = 0 /\ acc = <<>> /\ bad = {}
Start == /\ t = 0 /\ Returned(c) /\ Len(Trees(c)) > 0
         /\ acc' = [i \in 1 .. N(c) |-> 0] /\ t' = 1 /\ UNCHANGED <<c, bad>>
Tree == /\ t > 0 /\ t <= Len(Trees(c))
        /\ \E f \in {TreeFlaws(D(c), Trees(c)[t])} :
              bad' = bad \cup {<<x, "">> : x \in f}
        /\ acc' = RSeq([i \in 1 .. N(c) |-> RAdd(acc[i], PathLength(D(c), Trees(c)[t], i, 0))])
        /\ t' = t + 1 /\ UNCHANGED c
Final(k) ==
    Must("one tree per forest size", Len(Trees(k)) = In(k).forestSize)
    \cup Must("one score per row", Len(Out(k).scores) = N(k))
    \cup Must("the rows keep their order and labels", Out(k).index = In(k).index /\ Out(k).columns = <<In(k).name>>)
    \cup Must("the data is left as it was", Out(k).untouched)
    \cup (IF Len(Out(k).scores) # N(k) THEN {} ELSE
          UNION {MustNear("the score follows from the path lengths", Out(k).scores[i], Score(RDiv(acc[i], Len(Trees(k))), In(k).treeSize), 0, "1E-11") : i \in 1 .. N(k)}
          \cup Must("scores are in (0, 1]", \A i \in 1 .. N(k) : RGt(Out(k).scores[i], 0) /\ RLe(Out(k).scores[i], 1))
          \cup Must("equal observations score equally", \A i, j \in 1 .. N(k) : i < j /\ SameAttributes(In(k), i, j) => Out(k).scores[i] = Out(k).scores[j]))
RECURSIVE Height(_)
Height(x) == IF IsLeaf(x) THEN 0 ELSE LET a == Height(x.l) b == Height(x.r) IN 1 + (IF a > b THEN a ELSE b)
RECURSIVE Splits(_)
Splits(x) == IF IsLeaf(x) THEN {} ELSE {x} \cup Splits(x.l) \cup Splits(x.r)
AllSplits(k) == UNION {Splits(Trees(k)[i]) : i \in Idx(Trees(k))}
Situations(k) ==
    Tag("smaller sample than the data", In(k).treeSize < N(k)) \o Tag("larger tree size than the data", In(k).treeSize > N(k))
    \o Tag("missing values", \E a \in Idx(In(k).num) : \E i \in 1 .. N(k) : RIsNaN(In(k).num[a][i]))
    \o Tag("infinite values", \E a \in Idx(In(k).num) : \E i \in 1 .. N(k) : ~RIsFinite(In(k).num[a][i]) /\ ~RIsNaN(In(k).num[a][i]))
    \o Tag("split at a missing value", \E x \in AllSplits(k) : "chars" \notin DOMAIN x /\ RIsNaN(x.value))
    \o Tag("string splits", \E x \in AllSplits(k) : "chars" \in DOMAIN x)
    \o Tag("height limit reached", \E i \in Idx(Trees(k)) : Height(Trees(k)[i]) = HeightLimit(In(k).treeSize))
    \o Tag("equal observations", \E i, j \in 1 .. N(k) : i < j /\ SameAttributes(In(k), i, j))
    \o Tag("trees of one observation", In(k).treeSize = 1)
Finish ==
    /\ t >= 0
    /\ IF ~Returned(c) \/ Len(Trees(c)) = 0
       THEN t = 0 /\ Report(c, MustD("returns", FALSE, Out(c).exc), <<>>)
       ELSE t = Len(Trees(c)) + 1 /\ Report(c, bad \cup Final(c), Situations(c))
    /\ t' = -1 /\ UNCHANGED <<c, acc, bad>>
Next == Start \/ Tree \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE IForest -------------------------------
(***************************************************************************)
(* Isolation forest.  An observation has numeric attributes (a real or NaN *)
(* for missing) and string attributes (a sequence of character codes).     *)
(*   data: [num: <<per attribute: <<per observation>>>>, chars: likewise]  *)
(* Attributes are numbered from 0, numeric ones first; observations from 1 *)
(* (recorded trees number them from 0).                                    *)
(* A node is a leaf [n, obs] or [n, attr, value or chars, l, r].           *)
(***************************************************************************)
EXTENDS Num, FiniteSets
Euler == "0.57721566490153286"
\* average length of an unsuccessful search in a tree of n observations
AveragePath(n) == RSub(RMul(2, RAdd(RLn(n - 1), Euler)), RDiv(2 * (n - 1), n))
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)
HeightLimit(treeSize) == CeilLog2(treeSize)
SampleSize(treeSize, n) == IF treeSize < n THEN treeSize ELSE n

NumAttrs(d) == Len(d.num)
IsNumeric(d, attr) == attr < NumAttrs(d)
AttrOf(d, attr, i) == IF IsNumeric(d, attr) THEN d.num[attr + 1][i] ELSE d.chars[attr - NumAttrs(d) + 1][i]
SameValue(d, attr, x, y) == IF IsNumeric(d, attr) THEN RSame(x, y) ELSE x = y
\* alphabetical order of strings of equal length
RECURSIVE Earlier(_, _, _)
Earlier(a, b, k) == k <= Len(a) /\ (a[k] < b[k] \/ (a[k] = b[k] /\ Earlier(a, b, k + 1)))
\* smaller and missing values, shorter and earlier strings go left
GoesLeft(d, attr, x, split) ==
    IF IsNumeric(d, attr) THEN RIsNaN(x) \/ RLt(x, split)
    ELSE Len(x) < Len(split) \/ (Len(x) = Len(split) /\ Earlier(x, split, 1))
Left(d, attr, split, S) == {i \in S : GoesLeft(d, attr, AttrOf(d, attr, i), split)}

\* ------------------------------------------------------ recorded trees
IsLeaf(node) == "obs" \in DOMAIN node
SplitOf(d, node) == IF IsNumeric(d, node.attr) THEN node.value ELSE node.chars
RECURSIVE SampleOf(_)
SampleOf(node) == IF IsLeaf(node) THEN {node.obs[k] + 1 : k \in Idx(node.obs)} ELSE SampleOf(node.l) \cup SampleOf(node.r)
RECURSIVE Places(_)
Places(node) == IF IsLeaf(node) THEN Len(node.obs) ELSE Places(node.l) + Places(node.r)
\* the ways in which a subtree on the sample S at height h is not one the algorithm can grow
RECURSIVE Flaws(_, _, _, _)
Flaws(d, node, S, h) ==
    LET limit == d.limit IN
    (IF node.n = Cardinality(S) THEN {} ELSE {"a node counts the observations of its sample"})
    \cup IF IsLeaf(node)
         THEN (IF Cardinality(S) <= 1 \/ h >= limit THEN {} ELSE {"growth stops at one observation or at the height limit only"})
              \cup (IF SampleOf(node) = S THEN {} ELSE {"observations are in the leaf their values lead to"})
         ELSE (IF Cardinality(S) > 1 /\ h < limit THEN {} ELSE {"growth stops at one observation and at the height limit"})
              \cup (IF node.attr \in 0 .. (NumAttrs(d) + Len(d.chars) - 1) /\ ("chars" \in DOMAIN node) = ~IsNumeric(d, node.attr)
                    THEN LET split == SplitOf(d, node)
                             L == Left(d, node.attr, split, S)
                         IN  (IF \E i \in S : SameValue(d, node.attr, AttrOf(d, node.attr, i), split) THEN {}
                              ELSE {"split values occur in the node's sample"})
                             \cup Flaws(d, node.l, L, h + 1) \cup Flaws(d, node.r, S \ L, h + 1)
                    ELSE {"the split attribute is one of the data's"})
TreeFlaws(d, tree) ==
    (IF Places(tree) = Cardinality(SampleOf(tree)) THEN {} ELSE {"the sample's observations are distinct"})
    \cup (IF Cardinality(SampleOf(tree)) = SampleSize(d.treeSize, d.n) THEN {} ELSE {"the sample has min(tree size, n) observations"})
    \cup (IF SampleOf(tree) \subseteq 1 .. d.n THEN Flaws(d, tree, SampleOf(tree), 0) ELSE {"the sample is from the data"})

\* ------------------------------------------------------------- scoring
RECURSIVE PathLength(_, _, _, _)
PathLength(d, node, i, h) ==
    IF IsLeaf(node) THEN (IF node.n <= 1 THEN h ELSE RAdd(h, AveragePath(node.n)))
    ELSE PathLength(d, IF GoesLeft(d, node.attr, AttrOf(d, node.attr, i), SplitOf(d, node)) THEN node.l ELSE node.r, i, h + 1)
Score(meanPath, treeSize) == IF treeSize = 1 THEN 1 ELSE RExp(RMul(RNeg(RDiv(meanPath, AveragePath(treeSize))), RLn(2)))
SameAttributes(d, i, j) == /\ \A a \in Idx(d.num) : RSame(d.num[a][i], d.num[a][j])
                           /\ \A a \in Idx(d.chars) : d.chars[a][i] = d.chars[a][j]
=============================================================================

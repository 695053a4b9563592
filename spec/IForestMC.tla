------------------------------ MODULE IForestMC ------------------------------
(* All trees that can be grown over small data sets of one numeric and one    *)
(* string attribute: growth as actions (split one open node by an attribute   *)
(* and one of its observations), laws of the finished tree.  Each data set is  *)
(* emitted as a scenario.                                                      *)
EXTENDS IForest, TLC, Json
CONSTANTS N, Nums, Strs, TreeSizes
VARIABLES d, tree, phase
vars == <<d, tree, phase>>
StrsC == {<<97>>, <<98>>, <<97, 97>>}
\* nodes are kept in a set, each with the path that leads to it
Node(path, S) == [path |-> path, sample |-> S, attr |-> -1, split |-> 0]
Init == d = [num |-> <<<<>>>>, chars |-> <<<<>>>>, n |-> 0, treeSize |-> 0, limit |-> 0] /\ tree = {} /\ phase = "data"
Row == /\ phase = "data" /\ d.n < N
       /\ \E x \in Nums, s \in Strs : d' = [d EXCEPT !.num[1] = Append(@, x), !.chars[1] = Append(@, s), !.n = @ + 1]
       /\ UNCHANGED <<tree, phase>>
Begin == /\ phase = "data" /\ d.n > 0
         /\ PrintT("FRDS " \o ToJson(<<"SCEN", [num |-> d.num, chars |-> d.chars]>>))
         /\ \E m \in TreeSizes : \E S \in {T \in SUBSET (1 .. d.n) : Cardinality(T) = SampleSize(m, d.n)} :
              /\ d' = [d EXCEPT !.treeSize = m, !.limit = HeightLimit(m)]
              /\ tree' = {Node(<<>>, S)}
         /\ phase' = "grow"
Open(x) == x.attr = -1 /\ Cardinality(x.sample) > 1 /\ Len(x.path) < d.limit
\* the first open node is split (growth is depth-first and independent across nodes)
Split == /\ phase = "grow"
         /\ \E x \in {y \in tree : Open(y)} :
              /\ \A y \in tree : Open(y) => Len(y.path) < Len(x.path) \/ (Len(y.path) = Len(x.path) /\ ~Earlier(y.path, x.path, 1))
              /\ \E a \in {0, 1}, i \in x.sample :
                   LET v == AttrOf(d, a, i)
                       L == Left(d, a, v, x.sample)
                   IN  tree' = (tree \ {x}) \cup {[x EXCEPT !.attr = a, !.split = v], Node(Append(x.path, 0), L), Node(Append(x.path, 1), x.sample \ L)}
         /\ UNCHANGED <<d, phase>>
End == phase = "grow" /\ (\A x \in tree : ~Open(x)) /\ phase' = "done" /\ UNCHANGED <<d, tree>>
Next == Row \/ Begin \/ Split \/ End
Spec == Init /\ [][Next]_vars
\* the same tree in the recorded form
RECURSIVE Build(_)
Build(path) == LET x == CHOOSE y \in tree : y.path = path IN
    IF x.attr = -1 THEN [n |-> Cardinality(x.sample), obs |-> LET o[S \in SUBSET (1 .. N)] == IF S = {} THEN <<>> ELSE LET i == CHOOSE j \in S : TRUE IN Append(o[S \ {i}], i - 1) IN o[x.sample]]
    ELSE LET l == Build(Append(path, 0)) r == Build(Append(path, 1)) IN
         IF x.attr = 0 THEN [n |-> Cardinality(x.sample), attr |-> 0, value |-> x.split, l |-> l, r |-> r]
         ELSE [n |-> Cardinality(x.sample), attr |-> 1, chars |-> x.split, l |-> l, r |-> r]
Done == phase = "done"
\* what the growth actions produce is what the trace specification accepts
Accepted == Done => TreeFlaws(d, Build(<<>>)) = {}
\* every observation, sampled or not, has a path; sampled ones end in their leaf
PathsEnd == Done => \A i \in 1 .. d.n : RGe(PathLength(d, Build(<<>>), i, 0), 0)
EqualPaths == Done => \A i, j \in 1 .. d.n : SameAttributes(d, i, j) => RSame(PathLength(d, Build(<<>>), i, 0), PathLength(d, Build(<<>>), j, 0))
ScoreInRange == Done => \A i \in 1 .. d.n : LET s == Score(PathLength(d, Build(<<>>), i, 0), d.treeSize) IN RGt(s, 0) /\ RLe(s, 1)
HeightBounded == \A x \in tree : Len(x.path) <= d.limit
NothingLost == phase # "data" => (UNION {x.sample : x \in {y \in tree : y.attr = -1}}) = (CHOOSE y \in tree : y.path = <<>>).sample
=============================================================================

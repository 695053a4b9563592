--------------------------- MODULE CallFormsTrace ---------------------------
(***************************************************************************)
(* C32.  in : [f, calls: <<[pos, kw, layout]>>, tol]                       *)
(*       out: results[i] = [exc, text, value (sequence)]                   *)
(* The calls of a behaviour are made one after the other.  The state       *)
(* remembers what each binding gave: a form of call with a binding seen    *)
(* before gives the same.                                                  *)
(***************************************************************************)
EXTENDS TraceBase, Signature
VARIABLES c, i, memo, bad
vars == <<c, i, memo, bad>>
View == <<c, i>>
Usable(k) == Returned(k) /\ Len(Out(k).results) = Len(In(k).calls)
Init == c \in 1 .. NCases /\ i = 0 /\ memo = <<>> /\ bad = {}
Seen(b) == {x \in Idx(memo) : memo[x].b = b}
Same(r, q, tol) == r.exc = q.exc /\ r.text = q.text /\ SNear(r.value, q.value, SMaxAbs(q.value), tol)
Show(s, call) == s.f \o " with " \o ToString(Len(call.pos)) \o " arguments by position, by name " \o ToString(call.kw) \o ", arrays " \o call.layout
Make ==
    /\ i >= 0 /\ Usable(c) /\ i < Len(In(c).calls)
    /\ \E s \in {Sig(In(c).f)} : \E call \in {In(c).calls[i + 1]} : \E r \in {Out(c).results[i + 1]} : \E b \in {Binding(s, call)} :
         /\ Assert(WellFormed(s, call), "a call the specification does not allow")
         /\ bad' = bad \cup MustD("documented forms of call are accepted", r.exc # "TypeError", Show(s, call))
              \cup (IF Seen(b) = {} THEN {}
                    ELSE LET q == memo[CHOOSE x \in Seen(b) : TRUE].r IN
                         MustD("calls that mean the same give the same", Same(r, q, In(c).tol),
                               Show(s, call) \o ": got " \o ToString(r.exc) \o " " \o ToString(SubSeq(r.value, 1, IF Len(r.value) < 3 THEN Len(r.value) ELSE 3))
                               \o " instead of " \o ToString(SubSeq(q.value, 1, IF Len(q.value) < 3 THEN Len(q.value) ELSE 3))))
         /\ memo' = IF Seen(b) = {} THEN Append(memo, [b |-> b, r |-> r]) ELSE memo
    /\ i' = i + 1 /\ c' = c
\* optional arguments that made a difference, so that a wrong default would show
Matters(s, k) == \E x, y \in Idx(memo) : /\ memo[x].b[k] # memo[y].b[k] /\ \A j \in 1 .. NPar(s) : j = k \/ memo[x].b[j] = memo[y].b[j]
                                         /\ ~Same(memo[x].r, memo[y].r, In(c).tol)
Finish ==
    /\ i >= 0 /\ (Usable(c) => i = Len(In(c).calls))
    /\ Report(c, bad \cup (IF Usable(c) THEN {} ELSE MustD("the calls can be made", FALSE, Out(c).exc)),
              IF ~Usable(c) THEN <<>> ELSE
              <<In(c).f>> \o LET s == Sig(In(c).f)
                                 m == {k \in NReq(s) + 1 .. NPar(s) : Matters(s, k)}
                             IN  [x \in 1 .. Cardinality(m) |-> s.f \o ": " \o ParName(s, CHOOSE k \in m : Cardinality({j \in m : j < k}) = x - 1) \o " matters"])
    /\ i' = -1 /\ UNCHANGED <<c, memo, bad>>
Next == Make \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

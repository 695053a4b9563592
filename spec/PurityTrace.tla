----------------------------- MODULE PurityTrace -----------------------------
(***************************************************************************)
(* C27.  Histories of calls of all measures and algorithms on shared       *)
(* arguments.                                                              *)
(*   in : [steps: <<[op, kept, before, after]>>]                           *)
(*        kept: on an object created at its first use and used again       *)
(*        before: what the program did to the global generators            *)
(*           ("refill": put other values into the arrays it passes, the    *)
(*           second of two versions or the first again)                    *)
(*        after: "scribble": the caller overwrote what was returned        *)
(*   out: [args: digests of the two versions of the arguments,             *)
(*         steps: <<[exc, value, args, gbefore, gafter]>>,                 *)
(*         alone: op |-> <<[exc, value]>> for either version, in a process *)
(*         that only made this call]                                       *)
(*                                                                         *)
(* The state is what a program can see: the arguments, the global          *)
(* generators and, for each operation, what it has returned.  A call is a  *)
(* step that leaves the first two alone and returns what the operation     *)
(* always returns.                                                         *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES c, i, data, memo, bad
vars == <<c, i, data, memo, bad>>
View == <<c, i>>
Steps(k) == In(k).steps
Usable(k) == Returned(k) /\ Len(Out(k).steps) = Len(Steps(k))
Init == c \in 1 .. NCases /\ i = 0 /\ memo = <<>> /\ bad = {} /\ data = 1
\* estimations stop where rounding takes them: the values of another process agree to six digits
Alike(r, s, tol) == r.exc = s.exc /\ (r.exc = "" => SNear(r.value, s.value, SMaxAbs(s.value), tol))
Called(op, d, m) == \E x \in Idx(m) : m[x].op = op /\ m[x].d = d
Before(op, d, m) == m[CHOOSE x \in Idx(m) : m[x].op = op /\ m[x].d = d].r
Call ==
    /\ i >= 0 /\ Usable(c) /\ i < Len(Steps(c))
    /\ \E s \in {Steps(c)[i + 1]} : \E o \in {Out(c).steps[i + 1]} :
       \E d \in {IF s.before = "refill" THEN 3 - data ELSE data} :
       LET r == [exc |-> o.exc, value |-> o.value] IN
       /\ bad' = bad
            \cup MustD("arguments are left as they were", o.args = Out(c).args[d], s.op)
            \cup MustD("the global generators are left as they were", o.gafter = o.gbefore, s.op)
            \cup (IF Called(s.op, d, memo) THEN MustD("the same call gives the same result", Before(s.op, d, memo) = r, s.op) ELSE {})
            \cup MustD("what happened before does not matter", Alike(r, Out(c).alone[s.op][d], Out(c).tol[s.op]), s.op)
       /\ memo' = IF Called(s.op, d, memo) THEN memo ELSE Append(memo, [op |-> s.op, d |-> d, r |-> r])
       /\ data' = d
    /\ i' = i + 1 /\ c' = c
Finish ==
    /\ i >= 0 /\ (Usable(c) => i = Len(Steps(c)))
    /\ Report(c, bad \cup (IF Usable(c) THEN {} ELSE MustD("the history can be executed", FALSE, Out(c).exc)),
              IF ~Usable(c) THEN <<>> ELSE
              [k \in Idx(memo) |-> memo[k].op] \o
              Tag("other values in the same arrays", \E x \in Idx(Steps(c)) : Steps(c)[x].before = "refill") \o
              Tag("repeated call", Len(memo) < Len(Steps(c)))
              \o Tag("object used again", \E x, y \in Idx(Steps(c)) : x < y /\ Steps(c)[x].kept /\ Steps(c)[y] = Steps(c)[x])
              \o Tag("generators disturbed", \E x \in Idx(Steps(c)) : Steps(c)[x].before # "none")
              \o Tag("results overwritten", \E x \in Idx(Steps(c)) : Steps(c)[x].after = "scribble")
              \o Tag("call that raises", \E x \in Idx(Steps(c)) : Out(c).steps[x].exc # ""))
    /\ i' = -1 /\ UNCHANGED <<c, data, memo, bad>>
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE LayoutTrace -----------------------------
(***************************************************************************)
(* C26.  in : [fn, tol, calls: layouts of the arguments, the first plain]  *)
(*       out: [ext |-> results, pure |-> results], a result: [exc, value]  *)
(*            value: a sequence of reals                                   *)
(* One step per layout: both implementations give what the compiled one    *)
(* gives for contiguous doubles.                                           *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES c, v, bad
vars == <<c, v, bad>>
View == <<c, v>>
Plan(k) == In(k).calls
Res(k, m) == Out(k)[m].results
Base(k) == Res(k, "ext")[1]
Init == c \in 1 .. NCases /\ v = 0 /\ bad = {}
Usable(k) == \A m \in {"ext", "pure"} : Out(k)[m].exc = "" /\ Len(Res(k, m)) = Len(Plan(k))
Like(k, m, i) ==
    LET r == Res(k, m)[i]
        b == Base(k)
        what == In(k).fn \o (IF m = "ext" THEN " (compiled)" ELSE " (fallback)")
    IN  IF r.exc # "" THEN MustD("accepts every layout", FALSE, <<what, r.exc, Plan(k)[i]>>)
        ELSE IF SNear(r.value, b.value, RAdd(In(k).scale, SMaxAbs(b.value)), In(k).tol) THEN {}
        ELSE {<<IF i = 1 THEN "the fallback gives what the extension gives" ELSE "layout and type do not matter", ToString(<<what, Plan(k)[i]>>)>>}
Variant ==
    /\ v >= 0 /\ Usable(c) /\ v < Len(Plan(c))
    /\ bad' = bad \cup (IF Base(c).exc # "" THEN MustD("returns", FALSE, Base(c).exc) ELSE Like(c, "ext", v + 1) \cup Like(c, "pure", v + 1))
    /\ v' = v + 1 /\ c' = c
Finish ==
    /\ v >= 0 /\ (Usable(c) => v = Len(Plan(c)))
    /\ Report(c, bad \cup Must("returns", Usable(c)) \cup (IF Usable(c) THEN Must("arguments are left as they were", Out(c)["ext"].inputs_ok /\ Out(c)["pure"].inputs_ok) ELSE {}),
              <<In(c).fn>>)
    /\ v' = -1 /\ UNCHANGED <<c, bad>>
Next == Variant \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

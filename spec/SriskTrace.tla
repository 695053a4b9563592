----------------------------- MODULE SriskTrace -----------------------------
(***************************************************************************)
(* C12.  in : [op, W, D: sequences over firms, calls: <<[k, aggregate, h,  *)
(*            S, C, seed, ...]>>]                                          *)
(*       out: results[i] = [exc, value: sequence over firms or one number, *)
(*            lrmes: each firm's LRMES on its own for these settings,      *)
(*            own: SRISK of each firm on its own]                          *)
(* op "stand-in" replaces LRMES by given values, op "full" estimates it.   *)
(***************************************************************************)
EXTENDS CallTrace, Systemic
SriskClauses(k, i) ==
    LET call == Calls(k)[i]
        r == Result(k, i)
        nf == Len(In(k).W)
        sc(f) == SriskScale(call.k, In(k).D[f], In(k).W[f], r.lrmes[f])
        want == RSeq([f \in 1 .. nf |-> Srisk(call.k, In(k).D[f], In(k).W[f], r.lrmes[f])])
        scale == RSum([f \in 1 .. nf |-> sc(f)])
    IN  IF r.exc # "" THEN MustD("returns, unless an LRMES estimation fails", r.exc = "RuntimeError" /\ r.lrmes_failed, r.exc)
        ELSE Must("fails if an LRMES estimation fails", ~r.lrmes_failed) \cup
             IF r.lrmes_failed THEN {}
             ELSE IF call.aggregate
             THEN MustNear("aggregate is the sum of the positive shortfalls", r.value[1], Aggregate(want), scale, "1E-10")
                  \cup Must("one aggregate value", Len(r.value) = 1 /\ r.scalar)
             ELSE Must("a value per firm", Len(r.value) = nf /\ (nf = 1 => r.scalar)) \cup
                  UNION {MustNear("shortfall of the firm", r.value[f], want[f], sc(f), "1E-10")
                         \cup MustNear("what the firm gets on its own", r.value[f], r.own[f], sc(f), "1E-10") : f \in 1 .. nf}
SriskSituations(k) ==
    Tag(In(k).op, TRUE) \o Tag("one firm", Len(In(k).W) = 1) \o Tag("several firms", Len(In(k).W) > 1)
    \o Tag("aggregate", \E i \in Idx(Calls(k)) : Calls(k)[i].aggregate)
    \o Tag("surplus and shortfall together", \E i \in Idx(Calls(k)) : ReturnedAt(k, i) /\ ~Calls(k)[i].aggregate
            /\ (\E f \in Idx(In(k).W) : RLt(Result(k, i).value[f], 0)) /\ (\E f \in Idx(In(k).W) : RGt(Result(k, i).value[f], 0)))
=============================================================================

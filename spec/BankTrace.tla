------------------------------ MODULE BankTrace ------------------------------
(***************************************************************************)
(* C29.  in : [p, N, fs, kind, fn, vals, ...]                              *)
(*        vals: the valuations of the call, <<[p, N, fs, kind]>>: one for  *)
(*        a computation, one per cell for a lookup table                   *)
(*       out: [exc, w (paths x steps), vals: <<[field -> values]>>,        *)
(*             inputs_ok, global_ok, again]                                *)
(*        matrices are sequences over (factor value, path), paths fastest; *)
(*        a lookup table shows only some of the fields                     *)
(* One behaviour values the bank cohort by cohort: a step of the machine   *)
(* solves the promised yield, then each cohort is added in its turn, and   *)
(* the waterfall closes the valuation.                                     *)
(***************************************************************************)
EXTENDS TraceBase, ModMerton
VARIABLES c, v, j, bank, bad
vars == <<c, v, j, bank, bad>>
View == <<c, v, j>>
Val(k, i) == In(k).vals[i]
Got(k, i) == Out(k).vals[i]
NVals(k) == Len(In(k).vals)
Usable(k) == Returned(k) /\ Len(Out(k).vals) = NVals(k)
Init == c \in 1 .. NCases /\ v = 1 /\ j = -1 /\ bank = [F |-> 0] /\ bad = {}
HN(q) == RFloor(RAdd(StepsToDebt(q.p, q.N), "0.5"))
\* the promised yield is solved numerically to eight digits: what follows
\* uses the one returned, where it is
Originate ==
    /\ j = -1 /\ Usable(c) /\ v <= NVals(c)
    /\ \E q \in {Val(c, v)} : \E g \in {Got(c, v)} : \E mu \in {PromisedYield(q.p)} :
         LET used == IF "mu" \in DOMAIN g THEN g.mu ELSE mu IN
         /\ bank' = [F |-> FaceAt(q.p, used), mu |-> used, L |-> <<>>, A |-> <<>>, face |-> <<>>, now |-> <<>>, tie |-> FALSE]
         /\ bad' = bad \cup MustNear("promised yield", used, mu, "0.1", "1E-6")
                       \cup (IF "F" \in DOMAIN g THEN MustNear("loan face value", g.F, FaceAt(q.p, used), 0, "1E-12") ELSE {})
    /\ j' = 0 /\ UNCHANGED <<c, v>>
Plus(s, t) == IF s = <<>> THEN t ELSE RSeq(SZip(RAdd, s, t))
Cohorts(q) == IF q.kind = "multi" THEN q.N ELSE 1
AddCohort ==
    /\ j >= 0 /\ Usable(c) /\ v <= NVals(c) /\ j < Cohorts(Val(c, v))
    /\ \E q \in {Val(c, v)} :
       \E one \in {IF q.kind = "multi" THEN Cohort(q.p, bank.F, q.N, HN(q), q.fs, Out(c).w, j)
                   ELSE SingleCohort(q.p, bank.F, q.N, HN(q), q.fs, Out(c).w)} :
         bank' = [bank EXCEPT !.L = Plus(bank.L, one.L), !.A = Plus(bank.A, one.A), !.face = Plus(bank.face, one.face),
                              !.now = Plus(bank.now, one.now),
                              !.tie = @ \/ \E i \in Idx(one.A) : RLt(RoundingMargin(one.A[i]), "1E-4")]
    /\ j' = j + 1 /\ UNCHANGED <<c, v, bad>>

\* ---- the waterfall and what was observed --------------------------------
\* A ninth digit on the edge may order ties differently: only what does not
\* depend on their order is compared then.
Tol(g) == IF "mu" \in DOMAIN g THEN "1E-9" ELSE "1E-5"
Compare(g, name, want, scale, tol) ==
    IF name \notin DOMAIN g THEN {}
    ELSE IF Len(g[name]) # Len(want) THEN MustD(name, FALSE, "shape")
    ELSE LET off == {i \in Idx(want) : ~RNear(g[name][i], want[i], scale, tol)} IN
         IF off = {} THEN {} ELSE LET i == CHOOSE x \in off : TRUE IN
         MustD(name, FALSE, ToString(i) \o ": got " \o RStr(g[name][i]) \o " want " \o RStr(want[i]))
Close ==
    /\ j >= 0 /\ Usable(c) /\ v <= NVals(c) /\ j = Cohorts(Val(c, v))
    /\ \E q \in {Val(c, v)} : \E g \in {Got(c, v)} :
       LET p == q.p
           n == Cohorts(q)
           G == Len(q.fs)
           m == Len(Out(c).w)
           shown == G * m                              \* cells of the factor values as given
           mean(s) == RSeq([i \in Idx(s) |-> RDiv(s[i], n)])
       IN  \E L \in {mean(bank.L)} :
           \E B \in {RSeq([i \in Idx(L) |-> Debt(p, L[i])])} :
           \E Q \in {RSeq([i \in Idx(L) |-> EquityAt(p, L[i])])} :
           LET all == 1 .. 3 * G
               Lt == RSeq([k \in all |-> Present(p, m, k, L)])
               Bt == RSeq([k \in all |-> Present(p, m, k, B)])
               Et == RSeq([k \in all |-> Present(p, m, k, Q)])
               Gt == RSeq([k \in all |-> Present(p, m, k, [i \in Idx(L) |-> Bailout(p, L[i])])])
               df == [i \in Idx(L) |-> IF Defaults(p, L[i]) THEN 1 ELSE 0]
               \* paths where assets after the payout are within rounding of the debt
               edge == \E i \in Idx(L) : RNear(AfterPayout(p, L[i]), p.D, 0, Tol(g))
               mdef == [k \in 1 .. G |-> RDiv(RSum(SSub(df, (k - 1) * m + 1, k * m)), m)]
               size == SMaxAbs(L)
               \* a derivative by differences of logarithms: digits are lost with small equity
               volTol(s, k) == RMul(Tol(g), RAdd(10, RDiv(RMul(10, size), RMin2(RAbs(s[G + k]), RAbs(s[2 * G + k])))))
               posE(k) == RGt(Et[G + k], RMul("1E-6", size)) /\ RGt(Et[2 * G + k], RMul("1E-6", size))
               vol(name, s, ok(_)) ==
                   IF name \notin DOMAIN g THEN {}
                   ELSE UNION {IF ok(k) THEN MustNear(name, g[name][k], Vol(s, G, k), 1, volTol(s, k)) ELSE {} : k \in 1 .. G}
               first(s, k) == SSub(s, 1, k)
           IN  bad' = bad \cup (IF bank.tie THEN {} ELSE
                     Compare(g, "LH", first(L, shown), size, Tol(g)) \cup Compare(g, "BH", first(B, shown), size, Tol(g))
                     \cup Compare(g, "EH", first(Q, shown), size, Tol(g))
                     \cup Compare(g, "Lt", first(Lt, G), size, Tol(g)) \cup Compare(g, "Bt", first(Bt, G), size, Tol(g))
                     \cup Compare(g, "Et", first(Et, G), size, Tol(g)) \cup Compare(g, "Gt", first(Gt, G), size, Tol(g))
                     \cup (IF edge THEN {} ELSE Compare(g, "default", first(df, shown), 0, 0) \cup Compare(g, "mdef", mdef, 1, "1E-12"))
                     \cup vol("sigEt", Et, posE) \cup vol("sigLt", Lt, LAMBDA k : RGt(Lt[G + k], 0) /\ RGt(Lt[2 * G + k], 0)))
                 \cup Compare(g, "FH", first(mean(bank.A), shown), SMaxAbs(bank.A), Tol(g))
                 \cup Compare(g, "face", first(mean(bank.face), shown), 0, Tol(g))
                 \cup Compare(g, "mFt", first(mean(bank.now), G), 0, "1E-11")
                 \* the identities of the waterfall, on the observed values themselves
                 \cup (IF "LH" \notin DOMAIN g \/ Len(g.LH) # shown \/ Len(g.BH) # shown \/ Len(g.EH) # shown THEN {} ELSE
                        Must("assets are debt plus equity on every path", \A i \in 1 .. shown : RNear(RAdd(g.BH[i], g.EH[i]), g.LH[i], size, "1E-14"))
                        \cup Must("debt is at most its face value", \A i \in 1 .. shown : RLe(g.BH[i], p.D))
                        \cup Must("a bank defaults exactly when it cannot pay its debt in full",
                                  \A i \in 1 .. shown : IF REq(g.default[i], 1) THEN RNear(g.BH[i], AfterPayout(p, g.LH[i]), size, "1E-12") ELSE REq(g.default[i], 0) /\ REq(g.BH[i], p.D)))
                 \cup (IF "Lt" \notin DOMAIN g \/ Len(g.Lt) # G \/ Len(g.Bt) # G \/ Len(g.Et) # G THEN {} ELSE
                        Must("bank value is debt value plus equity value", \A k \in 1 .. G : RNear(RAdd(g.Bt[k], g.Et[k]), g.Lt[k], size, "1E-13")))
    /\ v' = v + 1 /\ j' = -1 /\ bank' = [F |-> 0] /\ UNCHANGED c
Finish ==
    /\ j = -1 /\ (Usable(c) => v = NVals(c) + 1)
    /\ Report(c, bad \cup (IF ~Usable(c) THEN MustD("returns", FALSE, Out(c).exc) ELSE
                Must("arguments are left as they were", Out(c).inputs_ok) \cup Must("the global generators are left as they were", Out(c).global_ok)
                \cup Must("the same call gives the same values", Out(c).again)),
              IF ~Usable(c) THEN <<>> ELSE
              LET q == Val(c, 1) IN
              Tag("multi-cohort", q.kind = "multi") \o Tag("single cohort", q.kind = "single")
              \o Tag("lookup table", In(c).fn = "lookup") \o Tag("inversion", In(c).fn = "solution")
              \o Tag("default shocks", In(c).w = "default")
              \o Tag("guarantee", RGt(q.p.g, 0)) \o Tag("rolled-over cohorts", q.kind = "multi" /\ HN(q) > 0)
              \o Tag("no roll-over", q.kind = "multi" /\ HN(q) = 0)
              \o Tag("some paths default", \E i \in 1 .. NVals(c) : "mdef" \in DOMAIN Got(c, i) /\ \E k \in Idx(Got(c, i).mdef) : RGt(Got(c, i).mdef[k], 0) /\ RLt(Got(c, i).mdef[k], 1))
              \o Tag("several factor values", Len(q.fs) > 1))
    /\ j' = -2 /\ UNCHANGED <<c, v, bank, bad>>
Next == Originate \/ AddCohort \/ Close \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

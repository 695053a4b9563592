------------------------------ MODULE PinTrace ------------------------------
(***************************************************************************)
(* C20.  in : [B, S, calls: <<[method]>>]                                  *)
(*       out: results[i] = [exc, p, ll, pin, method, success, kept, fresh, *)
(*            before: the object's success flag and method before the call]*)
(*            fresh: log-likelihood and pin of a new object for the        *)
(*            method, and proposals: parameters a search from the starting *)
(*            points ends at                                               *)
(***************************************************************************)
EXTENDS CallTrace, Pin
Known == {"EHO2010", "LK2011"}
Starts(k) == {<<i, j, m>> \in (1 .. 5) \X (1 .. 5) \X (1 .. 5) : Interior(StartPoint(i, j, m, In(k).B, In(k).S))}
StartLL(k) == [x \in Starts(k) |-> LogL(StartPoint(x[1], x[2], x[3], In(k).B, In(k).S), In(k).B, In(k).S)]
\* the best start; only those with a finite likelihood count
RECURSIVE BestOf(_, _, _)
BestOf(f, X, best) == IF X = {} THEN best
                      ELSE LET x == CHOOSE x \in X : TRUE IN BestOf(f, X \ {x}, IF RIsFinite(f[x]) THEN RMax2(best, f[x]) ELSE best)
Best(k) == BestOf(StartLL(k), Starts(k), "-Infinity")
Scale(k) == RAdd(10, RSum([t \in Idx(In(k).B) |-> RMul(RAdd(In(k).B[t], In(k).S[t]), 10)]))
\* the starting points listed are those of Yan and Zhang (2012), every one once;
\* whether sells are left at a start is undecided within rounding
Edge(k, p) == RLt(RAbs(p.es), RMul("1E-12", RAdd(1, SMax(In(k).B \o In(k).S))))
Triples == (1 .. 5) \X (1 .. 5) \X (1 .. 5)
Mean(k) == SMean(In(k).B)
\* the grid points a listed start x is (several when the data make them coincide)
Places(k, x, mean) ==
    LET A == {i \in 1 .. 5 : RClose(x[1], Five[i], "1E-12")}
        D == {j \in 1 .. 5 : RClose(x[2], Five[j], "1E-12")}
        M == {m \in 1 .. 5 : RClose(x[3], RMul(Five[m], mean), "1E-12")}
    IN  {t \in A \X D \X M : \E p \in {StartPoint(t[1], t[2], t[3], In(k).B, In(k).S)} : 
            RClose(x[5], p.mu, "1E-11") /\ RNear(x[4], p.es, RAdd(p.eb, p.mu), "1E-11")}
StartClauses(k) ==
    IF ~Out(k).listed THEN {}
    ELSE UNION {LET at == [i \in Idx(x) |-> Places(k, x[i], mean)]
                    pt == [t \in Triples |-> StartPoint(t[1], t[2], t[3], In(k).B, In(k).S)]
                    q == {t \in Triples : Admissible(pt[t]) \/ Edge(k, pt[t])}
                    sure == {t \in q : ~Edge(k, pt[t])}
                IN  MustD("starting points are those of the documented grid", \A i \in Idx(x) : at[i] \cap q # {}, Len(x))
                    \cup MustD("every point of the documented grid is a starting point, once",
                               sure \subseteq UNION {at[i] : i \in Idx(x)} /\ Cardinality(sure) <= Len(x) /\ Len(x) <= Cardinality(q), Len(x))
                : <<x, mean>> \in {<<Out(k).starts, Mean(k)>>}}
PinClauses(k, i) ==
  (IF i = 1 THEN StartClauses(k) ELSE {}) \cup
    LET r == Result(k, i)
        m == Calls(k)[i].method
        in01(x) == RGe(x, 0) /\ RLe(x, 1)
    IN  IF m \notin Known THEN Must("an unknown method is rejected", r.exc = "ValueError")
        ELSE IF r.exc # "" THEN MustD("returns", FALSE, r.exc)
        ELSE Must("returns the parameters it keeps", r.kept)
        \cup Must("starts afresh", <<r.fresh.ll, r.fresh.pin, r.fresh.success>> = <<r.ll, r.pin, r.success>>)
        \cup UNION {MustD("at least the optimum reached from every starting point",
                          r.success /\ RGe(r.ll, RSub(LogL(q, In(k).B, In(k).S), RAdd("0.001", RMul("1E-6", Scale(k))))),
                          RStr(r.ll) \o " below " \o RStr(LogL(q, In(k).B, In(k).S))) : q \in {r.fresh.proposals[x] : x \in Idx(r.fresh.proposals)}}
        \cup (IF ~r.success
              THEN Must("a failed estimation reports NaN", \A x \in {r.p.alpha, r.p.delta, r.p.eb, r.p.es, r.p.mu, r.ll, r.pin} : RIsNaN(x))
                   \cup (IF m = "LK2011" THEN Must("the form of Lin and Ke succeeds where a start is finite", ~RIsFinite(Best(k))) ELSE {})
              ELSE Must("alpha and delta are probabilities", in01(r.p.alpha) /\ in01(r.p.delta))
                   \cup Must("intensities are not negative", RGe(r.p.eb, 0) /\ RGe(r.p.es, 0) /\ RGe(r.p.mu, 0))
                   \cup MustNear("PIN is the share of informed trades", r.pin, PinOf(r.p), 1, "1E-12")
                   \cup Must("PIN is a probability", in01(r.pin))
                   \cup Must("names its method", r.method = m)
                   \cup MustNear("reports the log-likelihood at its parameters", r.ll, LogL(r.p, In(k).B, In(k).S), Scale(k), "1E-10")
                   \cup (IF m = "LK2011" \/ Calls(k)[i].small
                         THEN MustD("at least the likelihood of every starting point", RGe(r.ll, RSub(Best(k), RMul("1E-9", Scale(k)))),
                                    RStr(r.ll) \o " below " \o RStr(Best(k))) ELSE {}))
PinSituations(k) ==
    Tag("failed estimation", \E i \in Idx(Calls(k)) : ReturnedAt(k, i) /\ Calls(k)[i].method \in Known /\ ~Result(k, i).success)
    \o Tag("successful estimation", \E i \in Idx(Calls(k)) : ReturnedAt(k, i) /\ Calls(k)[i].method \in Known /\ Result(k, i).success)
    \o Tag("failure after success", \E i, j \in Idx(Calls(k)) : i < j /\ ReturnedAt(k, i) /\ ReturnedAt(k, j) /\ Calls(k)[i].method \in Known /\ Calls(k)[j].method \in Known
             /\ Result(k, i).success /\ ~Result(k, j).success)
    \o Tag("unknown method", \E i \in Idx(Calls(k)) : Calls(k)[i].method \notin Known)
    \o Tag("inadmissible starts", Cardinality(Starts(k)) < 125)
=============================================================================

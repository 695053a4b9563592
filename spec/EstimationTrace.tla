---------------------------- MODULE EstimationTrace ----------------------------
(***************************************************************************)
(* C34: recorded estimations with a failing optimiser keep the invariants  *)
(* of Estimation.tla and Multistart.tla.                                   *)
(*  pair:    in [kind, ops], out [fresh: object -> estimates,              *)
(*           events: <<[op, exc, state: object -> estimates,               *)
(*                      runs: <<[who, end, injected, x, fun]>>]>>]         *)
(*           estimates: [est, par, ll];  end: ok, above, unsure, fail      *)
(*  measure: LRMES or SRISK, out [want, events: <<[exc, value, est, runs]>>]*)
(*  pin:     out [events: <<[exc, est, par, ll, pin, runs: <<[ok, fun, x]>>]>>]*)
(*  odd:     series without a proper model, out [events: <<estimates>>]    *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES c, i, last, spoilt, bad
vars == <<c, i, last, spoilt, bad>>
Objects == {"first", "second", "joint"}
Op(k) == In(k).op
E(k) == Out(k).events
Blank(e) == RIsNaN(e.ll) /\ \A j \in Idx(e.par) : RIsNaN(e.par[j])
Good(e) == RIsFinite(e.ll) /\ SFinite(e.par)
Same(e, f) == e.est = f.est /\ RSame(e.ll, f.ll) /\ Len(e.par) = Len(f.par) /\ \A j \in Idx(e.par) : RSame(e.par[j], f.par[j])
Near(x, y) == Len(x) = Len(y) /\ \A j \in Idx(x) : RNear(x[j], y[j], 1, "1E-9")

RunsOf(e, o) == SelectSeq(e.runs, LAMBDA r : r.who = o)
\* how the last run for o ended, over the history so far
LastOf(e, o) == LET rs == RunsOf(e, o) IN IF rs = <<>> THEN last[o] ELSE rs[Len(rs)].end
Known(k) == \A n \in Idx(E(k)) : \A j \in Idx(E(k)[n].runs) : E(k)[n].runs[j].who \in Objects
PrevEst(k, n, o) == IF n = 1 THEN FALSE ELSE E(k)[n - 1].state[o].est
N(o, what) == o \o ": " \o what

PairStep(k, n) ==
    LET e == E(k)[n]
        lst == [o \in Objects |-> LastOf(e, o)]
        st == e.state
    IN  UNION {LET s == st[o] rs == RunsOf(e, o) IN
          \* Earned
          Must(N(o, "estimated only by a run that succeeded"), s.est /\ lst[o] # "none" => lst[o] \in {"ok", "unsure"})
          \cup Must(N(o, "estimated when its run succeeded"), lst[o] = "ok" => s.est)
          \* Sticky
          \cup Must(N(o, "estimates stay as they are"), PrevEst(k, n, o) => Same(s, E(k)[n - 1].state[o]) /\ rs = <<>>)
          \* what it reports
          \cup Must(N(o, "no estimates are reported after a failure"), s.est \/ Blank(s))
          \cup Must(N(o, "estimates are numbers"), s.est => Good(s))
          \cup Must(N(o, "the estimates are those of the run that succeeded"),
                    s.est /\ ~PrevEst(k, n, o) /\ rs # <<>> => \E j \in Idx(rs) : rs[j].end \in {"ok", "unsure"} /\ Near(rs[j].x, s.par))
          \cup Must(N(o, "the estimates are those found without failures"),
                    s.est /\ ~spoilt /\ (\A j \in Idx(e.runs) : e.runs[j].injected # "above")
                      /\ (o # "joint" \/ \A j \in Idx(e.runs) : e.runs[j].injected = "ok") /\ Out(k).fresh[o].est
                    => PrevEst(k, n, o) \/ Same(s, Out(k).fresh[o])) : o \in Objects}
        \* Together
        \cup Must("joint: estimated only with both parts", st["joint"].est => st["first"].est /\ st["second"].est)
        \* Answered
        \cup Must(N(e.op, "estimated when no run fails"),
                  e.runs # <<>> /\ (\A j \in Idx(e.runs) : e.runs[j].end = "ok") => e.exc = "" /\ st[e.op].est)

MeasureStep(k, n) ==
    LET e == E(k)[n]
        failed == \E j \in Idx(e.runs) : e.runs[j].end # "ok"
        never == {In(k).never[j] : j \in Idx(In(k).never)}
    IN  Must("an error or a number", e.exc # "" \/ (e.value # <<>> /\ SFinite(e.value)))
        \cup Must("no result from a model that cannot be estimated", never # {} /\ e.runs # <<>> => e.exc # "")
        \cup Must("a result when no run fails", e.runs # <<>> /\ ~failed => e.exc = "")
        \cup Must("LRMES needs its model", In(k).kind = "lrmes" => ((e.exc = "") <=> e.est))
        \cup Must("the result is the one found without failures",
                  e.exc = "" /\ ~spoilt /\ (\A j \in Idx(e.runs) : e.runs[j].who = "joint" \/ e.runs[j].end = "ok") => Near(e.value, Out(k).want))

PinStep(k, n) ==
    LET e == E(k)[n]
        ok == {j \in Idx(e.runs) : e.runs[j].ok /\ RIsFinite(e.runs[j].fun)}
        best == CHOOSE j \in ok : \A m \in ok : RLe(e.runs[j].fun, e.runs[m].fun)
    IN  IF e.runs = <<>> THEN Must("no estimates without a start", e.exc # "" \/ (~e.est /\ Blank(e)))
        ELSE IF ok = {} THEN Must("failure of every start is a failure", e.exc # "" \/ ~e.est)
                             \cup Must("no estimates are reported after a failure", Blank(e) /\ RIsNaN(e.pin))
        ELSE Must("a start that succeeds is enough", e.exc = "" /\ e.est)
             \cup Must("the best of the successful starts is kept", RNear(e.ll, RNeg(e.runs[best].fun), 1, "1E-9"))
             \cup Must("the estimates are those of that start",
                       \E j \in ok : RNear(e.runs[j].fun, e.runs[best].fun, 1, "1E-9") /\ Near(e.runs[j].x, e.par))
             \cup Must("PIN is that of the estimates",
                       LET a == RMul(e.par[1], e.par[5]) IN RNear(e.pin, RDiv(a, RAdd(a, RAdd(e.par[3], e.par[4]))), 1, "1E-9"))

OddStep(k, n) ==
    LET e == E(k)[n] IN
    Must(N(e.o, "estimates are numbers"), e.est => Good(e))
    \cup Must(N(e.o, "variances are positive numbers"), e.est => SFinite(e.var) /\ \A j \in Idx(e.var) : RGt(e.var[j], 0))
    \cup Must(N(e.o, "no estimates are reported after a failure"), e.est \/ Blank(e))
    \cup Must("joint: estimated only with both parts", e.o = "joint" /\ e.est => \A m \in Idx(E(k)) : E(k)[m].est)

Init == c \in 1 .. NCases /\ i = 1 /\ last = [o \in Objects |-> "none"] /\ spoilt = FALSE /\ bad = {}
Usable(k) == Returned(k) /\ (Op(k) = "pair" => Known(k))
Step ==
    /\ i > 0 /\ Usable(c) /\ i <= Len(E(c))
    /\ bad' = bad \cup (CASE Op(c) = "pair" -> PairStep(c, i) [] Op(c) = "measure" -> MeasureStep(c, i)
                          [] Op(c) = "pin" -> PinStep(c, i) [] Op(c) = "odd" -> OddStep(c, i))
    /\ last' = IF Op(c) = "pair" THEN [o \in Objects |-> LastOf(E(c)[i], o)] ELSE last
    /\ spoilt' = (spoilt \/ (Op(c) = "pair" /\ \E j \in Idx(E(c)[i].runs) : E(c)[i].runs[j].injected = "above")
                         \/ (Op(c) = "measure" /\ \E j \in Idx(E(c)[i].runs) : E(c)[i].runs[j].who # "joint" /\ E(c)[i].runs[j].end # "ok"))
    /\ i' = i + 1 /\ c' = c
Finish ==
    /\ i > 0 /\ (Usable(c) => i = Len(E(c)) + 1)
    /\ Report(c, bad \cup MustD("runs without an error of its own", Returned(c), Out(c).exc),
         IF ~Usable(c) THEN <<"undecided">> ELSE
         Tag(Op(c), TRUE)
         \o (IF Op(c) = "pair" THEN
              Tag("a run that ends above its start", spoilt)
              \o Tag("recovered", \E m, n \in Idx(E(c)) : m < n /\ \E o \in Objects : ~E(c)[m].state[o].est /\ E(c)[m].op = o /\ E(c)[n].state[o].est)
              \o Tag("joint fails, parts estimated", \E n \in Idx(E(c)) : E(c)[n].op = "joint" /\ ~E(c)[n].state["joint"].est /\ E(c)[n].state["first"].est /\ E(c)[n].state["second"].est)
              \o Tag("part fails in joint", \E n \in Idx(E(c)) : E(c)[n].op = "joint" /\ ~(E(c)[n].state["first"].est /\ E(c)[n].state["second"].est))
             ELSE IF Op(c) = "measure" THEN Tag("measure raises", \E n \in Idx(E(c)) : E(c)[n].exc # "") \o Tag("measure recovers", \E m, n \in Idx(E(c)) : m < n /\ E(c)[m].exc # "" /\ E(c)[n].exc = "")
             ELSE IF Op(c) = "pin" THEN Tag("every start fails", \E n \in Idx(E(c)) : ~E(c)[n].est) \o Tag("estimated, then not", \E n \in Idx(E(c)) : n > 1 /\ E(c)[n - 1].est /\ ~E(c)[n].est)
             ELSE Tag("no proper model", \E n \in Idx(E(c)) : ~E(c)[n].est)))
    /\ i' = -1 /\ UNCHANGED <<c, last, spoilt, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

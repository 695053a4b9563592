---------------------------- MODULE OptionTrace ----------------------------
(***************************************************************************)
(* C17.  in : [calls: <<[form, o: <<options>>]>>]                          *)
(*        form: scalar, list of scalars per argument as array or mixed     *)
(*       out: results[i] = [exc, call, put] (sequences over the options)   *)
(***************************************************************************)
EXTENDS CallTrace, OptionPrice
Tol == "1E-12"
One(o, cv, pv, i) ==
    LET s == DiscS(o)
        p == DiscK(o)
        m == RAdd(s, p)
        slack == RMul(Tol, m)
    IN  MustNear("call price", cv, CallPrice(o), m, "1E-11")
        \cup MustNear("put price", pv, PutPrice(o), m, "1E-11")
        \cup Must("put-call parity", RLe(RAbs(RSub(RSub(cv, pv), RSub(s, p))), slack))
        \cup Must("call within its no-arbitrage bounds", RGe(cv, RSub(RMax2(RSub(s, p), 0), slack)) /\ RLe(cv, RAdd(s, slack)))
        \cup Must("put within its no-arbitrage bounds", RGe(pv, RSub(RMax2(RSub(p, s), 0), slack)) /\ RLe(pv, RAdd(p, slack)))
OptionClauses(k, i) ==
    LET r == Result(k, i)
        o == Calls(k)[i].o
    IN  IF r.exc # "" THEN MustD("returns", FALSE, r.exc)
        ELSE Must("a price per option", Len(r.call) = Len(o) /\ Len(r.put) = Len(o)) \cup
             (IF Len(r.call) = Len(o) /\ Len(r.put) = Len(o) THEN UNION {One(o[j], r.call[j], r.put[j], i) : j \in Idx(o)} ELSE {})
OptionSituations(k) ==
    LET all == UNION {{Calls(k)[i].o[j] : j \in Idx(Calls(k)[i].o)} : i \in Idx(Calls(k))} IN
    Tag("negative rate", \E o \in all : RLt(o.r, 0)) \o Tag("yield", \E o \in all : RGt(o.q, 0))
    \o Tag("deep in the money", \E o \in all : RGt(D2(o), 5)) \o Tag("deep out of the money", \E o \in all : RLt(D1(o), -5))
    \o Tag("at the money forward", \E o \in all : RNear(DiscS(o), DiscK(o), 0, "1E-12"))
    \o Tag("arrays", \E i \in Idx(Calls(k)) : Calls(k)[i].form # "scalar")
=============================================================================

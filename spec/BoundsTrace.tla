----------------------------- MODULE BoundsTrace -----------------------------
(***************************************************************************)
(* C03: backcast, smoothing and variance bounds of the real code follow    *)
(* Garch.tla.                                                              *)
(*   in : [op, resids, init, lam]      op \in {"backcast","ewma","bounds"} *)
(*   out: [value] | [path] | [bounds]                                      *)
(* The smoothing is consumed one period per step; v is the smoothed        *)
(* variance the specification expects.                                     *)
(***************************************************************************)
EXTENDS TraceBase, Garch
VARIABLES c, t, v, lim, bad
vars == <<c, t, v, lim, bad>>

Tol == "1E-9"
E(k) == In(k).resids
T(k) == Len(E(k))
Op(k) == In(k).op
\* rounding, relative to the largest term that ever entered (however small its weight is by now)
Slack(k) == RMul("1E-5", RAdd(RSq(SMaxAbs(E(k))), IF In(k).op = "ewma" THEN RAbs(In(k).init) ELSE 0))

Init == c \in 1 .. NCases /\ t = 0 /\ v = "0" /\ lim = <<>> /\ bad = {}

Shape(k) == /\ Returned(k)
            /\ CASE Op(k) = "ewma" -> Len(Out(k).path) = T(k)
                 [] Op(k) = "bounds" -> Len(Out(k).bounds) = T(k) /\ \A i \in 1 .. T(k) : Len(Out(k).bounds[i]) = 2
                 [] OTHER -> TRUE

BackcastClauses(k) ==
    LET got == Out(k).value
        n == IF T(k) < BackcastWindow THEN T(k) ELSE BackcastWindow
        sq == SSq(SSub(E(k), 1, n))
    IN  MustNear("backcast", got, Backcast(E(k)), 0, Tol)
        \cup Must("backcast lies within the squared residuals of the window",
                  RLe(RMul(SMin(sq), "0.999999999"), got) /\ RLe(got, RMul(SMax(sq), "1.000000001")))

PeriodClauses(k, i, x) ==
    IF Op(k) = "ewma" THEN MustNear("smoothed variance", Out(k).path[i], x, Slack(k), Tol)
    ELSE LET lo == Out(k).bounds[i][1]
             hi == Out(k).bounds[i][2]
         IN  MustNear("lower bound", lo, LowerOf(x, lim[1], lim[2]), RDiv(RAdd(lim[1], Slack(k)), BoundFactor), Tol)
             \cup MustNear("upper bound", hi, UpperOf(x, lim[1], lim[2]), RMul(Slack(k), BoundFactor), Tol)
             \cup Must("lower bound at most upper bound", RLe(lo, hi))
             \cup Must("lower bound positive unless residuals are constant", RGt(lo, 0) \/ REq(SMin(E(k)), SMax(E(k))))

Begin ==
    /\ t = 0
    /\ IF ~Shape(c) THEN t' = 1 /\ bad' = MustD("returns its value", FALSE, Out(c).exc) /\ UNCHANGED <<v, lim>>
       ELSE IF Op(c) = "backcast" THEN t' = 1 /\ bad' = BackcastClauses(c) /\ UNCHANGED <<v, lim>>
       ELSE /\ t' = 1 /\ bad' = {}
            /\ v' = IF Op(c) = "ewma" THEN RVal(In(c).init) ELSE Backcast(E(c))
            /\ lim' = IF Op(c) = "ewma" THEN <<>> ELSE <<GlobalLower(E(c)), GlobalUpper(E(c))>>
    /\ c' = c
Last == IF Op(c) = "backcast" \/ ~Shape(c) THEN 1 ELSE T(c) + 1
Period ==
    /\ t > 0 /\ t < Last
    /\ bad' = bad \cup PeriodClauses(c, t, v)
    /\ v' = IF t < T(c) THEN SmoothNext(IF Op(c) = "ewma" THEN In(c).lam ELSE Decay, v, E(c)[t]) ELSE v
    /\ t' = t + 1 /\ UNCHANGED <<c, lim>>
Situations(k) ==
    Tag(Op(k), TRUE) \o Tag("shorter than the window", T(k) < BackcastWindow) \o Tag("longer than the window", T(k) > BackcastWindow)
    \o (IF Op(k) = "bounds" /\ Shape(k)
        THEN LET s == Smooth(Decay, E(k), Backcast(E(k))) IN
             Tag("global lower limit binds", \E i \in Idx(s) : RLt(s[i], GlobalLower(E(k))))
             \o Tag("global upper limit binds", \E i \in Idx(s) : RGt(s[i], GlobalUpper(E(k))))
        ELSE <<>>)
Finish == /\ t = Last
          /\ Report(c, bad, Situations(c))
          /\ t' = -1 /\ UNCHANGED <<c, v, lim, bad>>
Next == Begin \/ Period \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

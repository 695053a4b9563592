------------------------------ MODULE GridTrace ------------------------------
(***************************************************************************)
(* C05: estimation starts from the best candidate of the documented grid   *)
(* and a successful fit does not end below it.                             *)
(*   in : [model, zero_mean, returns]        univariate                    *)
(*   out: [start: <<mu, omega, alpha, (gamma,) beta>> or without mu,       *)
(*         success, ll]                                                    *)
(*   in : [model = "dcc"]                                                  *)
(*   out: [start: <<a, b>>, success, ll, ll1, ll2, z: two series of        *)
(*         [resids, sigma2]]                                               *)
(* One candidate per step; best is the highest log-likelihood so far.      *)
(***************************************************************************)
EXTENDS TraceBase, Grid
VARIABLES c, j, data, best, own, bad
vars == <<c, j, data, best, own, bad>>

Model(k) == In(k).model
Size(k) == GridSize(Model(k))
R(k) == In(k).returns
Centre(k) == IF In(k).zero_mean THEN R(k) ELSE SShift(R(k), RNeg(SMean(R(k))))
StartVec(k) == IF Model(k) # "dcc" /\ ~In(k).zero_mean THEN SSub(Out(k).start, 2, Len(Out(k).start)) ELSE Out(k).start

Init == c \in 1 .. NCases /\ j = 0 /\ data = <<>> /\ best = "-Infinity" /\ own = "NaN" /\ bad = {}

VecLen(k) == CASE Model(k) = "garch" -> 3 [] Model(k) = "gjr" -> 4 [] OTHER -> 2
Shape(k) == Returned(k) /\ Len(StartVec(k)) = VecLen(k)

Begin ==
    /\ j = 0 /\ c' = c /\ UNCHANGED <<best, own>>
    /\ IF ~Shape(c) THEN j' = Size(c) + 1 /\ bad' = MustD("starting values are returned", FALSE, Out(c).exc) /\ data' = data
       ELSE /\ j' = 1
            /\ IF Model(c) = "dcc"
               THEN /\ data' = [z1 |-> Standardize(Out(c).z[1].resids, Out(c).z[1].sigma2),
                                z2 |-> Standardize(Out(c).z[2].resids, Out(c).z[2].sigma2)]
                    /\ bad' = {}
               ELSE \E e \in {Centre(c)} :
                    /\ data' = [e |-> e, bounds |-> VarBounds(e), backcast |-> Backcast(e), v |-> SVar(R(c))]
                    /\ bad' = IF In(c).zero_mean THEN {} ELSE
                              MustNear("mu starts at the sample mean", Out(c).start[1], SMean(R(c)), SMaxAbs(R(c)), "1E-12")
AsSeq(k, p) == IF Model(k) = "gjr" THEN <<p.omega, p.alpha, p.gamma, p.beta>> ELSE <<p.omega, p.alpha, p.beta>>
IsStart(k, s) == \A i \in Idx(s) : RNear(s[i], StartVec(k)[i], "1E-6", "1E-9") /\ RNear(s[i], StartVec(k)[i], 0, "1E-6")
Candidate ==
    /\ j > 0 /\ j <= Size(c)
    /\ j' = j + 1 /\ UNCHANGED <<c, data, bad>>
    /\ \E p \in {IF Model(c) = "dcc" THEN <<DccA(j), DccB(j)>> ELSE Univariate(Model(c), j, data.v)} :
       \E l \in {IF Model(c) = "dcc" THEN RSum(<<Out(c).ll1, Out(c).ll2, DccComponent(p[1], p[2], data.z1, data.z2)>>)
                ELSE LogL(data.e, VarPath(p, data.e, data.backcast, data.bounds))} :
       LET seq == IF Model(c) = "dcc" THEN p ELSE AsSeq(c, p)
           tried == Model(c) # "dcc" \/ RLt(RAdd(p[1], p[2]), 1)
       IN IF tried
          THEN /\ best' = RMax2(best, l)
               /\ own' = IF IsStart(c, seq) THEN l ELSE own
          ELSE UNCHANGED <<best, own>>
\* starting values outside the bounds of the parameters are moved inside first
Inside(k) == Model(k) = "dcc" \/ RGe(StartVec(k)[1], "1E-6")
Finish ==
    /\ j = Size(c) + 1
    /\ LET slack == RMul("1E-9", RAdd(10, RAbs(best)))
           all == IF ~Shape(c) THEN bad ELSE bad
               \cup Must("starting values are a candidate of the grid", ~RIsNaN(own))
               \cup MustD("starting values are the best candidate", RIsNaN(own) \/ RGe(own, RSub(best, slack)),
                          RStr(own) \o " below " \o RStr(best))
               \cup MustD("a successful fit does not end below its start",
                          (Out(c).success /\ Inside(c)) => RGe(Out(c).ll, RSub(own, "0.00001")),
                          RStr(Out(c).ll) \o " below " \o RStr(own))
       IN Report(c, all, <<Model(c)>> \o (IF ~Shape(c) THEN <<"raised">> ELSE
                  Tag("failed fit", ~Out(c).success) \o Tag("start outside the bounds", ~Inside(c))
                  \o Tag("fit improves on its start", Out(c).success /\ RGt(Out(c).ll, RAdd(own, "0.01")))))
    /\ j' = -1 /\ UNCHANGED <<c, data, best, own, bad>>
Next == Begin \/ Candidate \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE PathTrace ------------------------------
(***************************************************************************)
(* C10: a recorded simulation is the path of Lrmes.tla, a period per step. *)
(*   in : [pf, pm, a, b, qbar, s0, C, inn: <<<<firm, market>>, ...>>]      *)
(*   out: [ret, event]                                                     *)
(***************************************************************************)
EXTENDS TraceBase, Lrmes
VARIABLES c, h, s
vars == <<c, h, s>>
Init == c \in 1 .. NCases /\ h = 0 /\ s = PathStart(In(c).s0)
Period ==
    /\ h >= 0 /\ h < Len(In(c).inn)
    /\ s' = PathNext(s, In(c).pf, In(c).pm, In(c).a, In(c).b, In(c).qbar, In(c).inn[h + 1][1], In(c).inn[h + 1][2])
    /\ h' = h + 1 /\ c' = c
Bad ==
    IF ~Returned(c) THEN MustD("simulation returns", FALSE, Out(c).exc)
    ELSE IF Tie(s, In(c).C) THEN Must("a return and an event", Out(c).event \in BOOLEAN)
    ELSE Must("event exactly when the market's compounded return is below the threshold", Out(c).event = Systemic(s, In(c).C))
         \cup (IF Systemic(s, In(c).C) THEN IF RGt(FirmReturn(s), "1E300") THEN {} ELSE MustNear("compounded firm return", Out(c).ret, FirmReturn(s), 1, "1E-7")
               ELSE Must("zero without an event", REq(Out(c).ret, 0)))
Finish ==
    /\ h = Len(In(c).inn)
    /\ Report(c, Bad, <<IF Tie(s, In(c).C) THEN "tie" ELSE IF Systemic(s, In(c).C) THEN "event" ELSE "no event">>
                      \o Tag("firm gains in an event", Systemic(s, In(c).C) /\ RGt(FirmReturn(s), 0))
                      \o Tag("exactly at the threshold", REq(Compound(s.ms), In(c).C)))
    /\ h' = -1 /\ UNCHANGED <<c, s>>
Next == Period \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

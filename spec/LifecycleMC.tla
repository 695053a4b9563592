----------------------------- MODULE LifecycleMC -----------------------------
(* Every history of up to L calls; complete ones are emitted as scenarios.  *)
EXTENDS Lifecycle, TLC, Json
CONSTANTS L
VARIABLE hist
PartsA == [d12 |-> {"u1", "u2"}, d21 |-> {"u1", "u2"}]
PartsB == [j12 |-> {"v1", "v2"}, da |-> {"u2"}, cc |-> {}, d12 |-> {"u1", "u2"}]
MCInit == LInit /\ hist = <<>>
Call(op, o) == Len(hist) < L /\ Apply(op, o) /\ hist' = Append(hist, <<op, o>>)
Emit == /\ Len(hist) = L
        /\ PrintT("FRDS " \o ToJson(<<"SCEN", [hist |-> hist]>>))
        /\ hist' = Append(hist, <<"end", "end">>) /\ UNCHANGED est
MCNext == (\E op \in Ops, o \in Objects : Call(op, o)) \/ Emit
MCSpec == MCInit /\ [][MCNext]_<<est, hist>>
MCNeverLost == [][\A o \in Objects : est[o] /\ ~est'[o] => hist'[Len(hist')] = <<"new", o>>]_<<est, hist>>
=============================================================================

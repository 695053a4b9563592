-------------------------------- MODULE MesMC --------------------------------
(* Paired observations on a lattice, entered one by one: laws of the MES for  *)
(* every quantile j / 8; every complete history is emitted as a scenario.     *)
EXTENDS Systemic, TLC, Json
CONSTANTS T, Fs, Ms
VARIABLES f, m, done
vars == <<f, m, done>>
Init == f = <<>> /\ m = <<>> /\ done = FALSE
Day == ~done /\ Len(f) < T /\ (\E x \in Fs, y \in Ms : f' = Append(f, x) /\ m' = Append(m, y)) /\ done' = FALSE
Emit == ~done /\ Len(f) > 0 /\ PrintT("FRDS " \o ToJson(<<"SCEN", [firm |-> f, market |-> m]>>)) /\ done' = TRUE /\ UNCHANGED <<f, m>>
Next == Day \/ Emit
Spec == Init /\ [][Next]_vars
Q(j) == RDiv(j, 8)
Full == Len(f) > 0
Bounded == Full => \A j \in 0 .. 8 : LET v == Mes(f, m, Q(j)) IN RIsNaN(v) \/ (RLe(SMin(f), v) /\ RLe(v, SMax(f)))
NoneAtZero == Full => RIsNaN(Mes(f, m, 0))
MoreDaysForHigherQuantiles == Full => \A j \in 1 .. 8 : DaysBelow(m, Quantile(m, Q(j - 1))) \subseteq DaysBelow(m, Quantile(m, Q(j)))
\* swapping the last two days changes nothing
Swap(s) == [t \in Idx(s) |-> IF t = Len(s) THEN s[t - 1] ELSE IF t = Len(s) - 1 THEN s[t + 1] ELSE s[t]]
OrderFree == Len(f) > 1 => \A j \in 0 .. 8 : RSame(Mes(f, m, Q(j)), Mes(Swap(f), Swap(m), Q(j)))
=============================================================================

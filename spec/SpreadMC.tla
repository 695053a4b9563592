------------------------------- MODULE SpreadMC -------------------------------
(* Trades on a lattice, entered one by one: decomposition, scaling and the     *)
(* relation of signed to absolute measures; each history is a scenario.        *)
EXTENDS Micro, TLC, Json
CONSTANTS T, Prices, Laters, Volumes
VARIABLES p, later, v, dir, done
vars == <<p, later, v, dir, done>>
Mid == [t \in Idx(p) |-> 2]
Init == p = <<>> /\ later = <<>> /\ v = <<>> /\ dir = <<>> /\ done = FALSE
Trade == ~done /\ Len(p) < T /\ (\E x \in Prices, l \in Laters, w \in Volumes, d \in {-1, 1} :
            p' = Append(p, x) /\ later' = Append(later, l) /\ v' = Append(v, w) /\ dir' = Append(dir, d)) /\ UNCHANGED done
Emit == ~done /\ Len(p) > 0 /\ PrintT("FRDS " \o ToJson(<<"SCEN", [price |-> p, mid |-> Mid, later |-> later, volume |-> v, dir |-> dir]>>))
        /\ done' = TRUE /\ UNCHANGED <<p, later, v, dir>>
Next == Trade \/ Emit
Spec == Init /\ [][Next]_vars
M(fn, pct, directed) == TradeMeasure(fn, p, Mid, later, v, dir, pct, directed)
Tol == "1E-30"
Decomposes == Len(p) > 0 => \A pct \in BOOLEAN : RNear(M("effective", pct, TRUE), RAdd(M("realized", pct, TRUE), M("impact", pct, TRUE)), 1, Tol)
AbsoluteIsLarger == Len(p) > 0 => \A pct \in BOOLEAN, fn \in {"effective", "realized", "impact"} :
    RLe(RAbs(M(fn, pct, TRUE)), RAdd(M(fn, pct, FALSE), Tol)) /\ RGe(M(fn, pct, FALSE), 0)
ScaleFree == Len(p) > 0 => \A fn \in {"effective", "realized", "impact"} :
    RNear(M(fn, TRUE, TRUE), TradeMeasure(fn, p, Mid, later, SScale(8, v), dir, TRUE, TRUE), 1, Tol)
Mirrored == Len(p) > 0 => \A fn \in {"effective", "realized", "impact"} :
    RNear(RNeg(M(fn, FALSE, TRUE)), TradeMeasure(fn, p, Mid, later, v, SScale(-1, dir), FALSE, TRUE), 1, Tol)
QuotedNonNegative == Len(p) > 0 => \A pct \in BOOLEAN : RGe(QuotedSpread(p, [t \in Idx(p) |-> RAdd(p[t], v[t])], pct), 0)
=============================================================================

------------------------------- MODULE Dataset -------------------------------
(***************************************************************************)
(* A sample dataset read once.  Memory is a set of blocks (values, row     *)
(* labels, column labels); a frame is three block addresses; the cache is  *)
(* a frame nobody else may own a block of.  Access returns a frame,        *)
(* Modify writes through any block of a frame obtained before.             *)
(* Shared names the blocks an access hands out without copying: with       *)
(* Shared = {} every access returns the source (Faithful), with any other  *)
(* value it does not (SharedBreaks.cfg style runs show the counterexample).*)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS L, Shared, EmitHistories
Parts == {"values", "index", "columns"}
NoPart == {}
VARIABLES cache,      \* "unread" or the blocks of the cached frame
          mem,        \* content of the blocks: "source" or "changed"
          frames,     \* the frames callers hold, and what they read on access
          hist
vars == <<cache, mem, frames, hist>>
Init == cache = "unread" /\ mem = <<>> /\ frames = <<>> /\ hist = <<>>
\* the i-th access allocates its blocks at 3i+1 ..; the cache at 1 .. 3
Order == <<"values", "index", "columns">>
CacheBlock(p) == CHOOSE i \in 1 .. 3 : Order[i] = p
Access ==
    LET m0 == IF cache = "unread" THEN <<"source", "source", "source">> ELSE mem
        base == Len(m0)
        own(p) == IF p \in Shared THEN CacheBlock(p) ELSE base + CacheBlock(p)
        m1 == m0 \o [i \in 1 .. 3 |-> m0[i]]
    IN  /\ cache' = "read" /\ mem' = m1
        /\ frames' = Append(frames, [at |-> [p \in Parts |-> own(p)], seen |-> [p \in Parts |-> m1[own(p)]]])
        /\ hist' = Append(hist, <<"access", 0, "">>)
Modify(k, p) ==
    /\ mem' = [mem EXCEPT ![frames[k].at[p]] = "changed"]
    /\ hist' = Append(hist, <<"modify", k, p>>) /\ UNCHANGED <<cache, frames>>
Emit == Len(hist) = L /\ hist' = Append(hist, <<"end", 0, "">>) /\ UNCHANGED <<cache, mem, frames>>
        /\ (EmitHistories => PrintT("FRDS " \o ToJson(<<"SCEN", [hist |-> hist]>>)))
Next == (Len(hist) < L /\ (Access \/ \E k \in 1 .. Len(frames), p \in Parts : Modify(k, p))) \/ Emit
Spec == Init /\ [][Next]_vars
Faithful == \A k \in 1 .. Len(frames) : \A p \in Parts : frames[k].seen[p] = "source"
=============================================================================

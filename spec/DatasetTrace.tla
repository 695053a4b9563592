---------------------------- MODULE DatasetTrace ----------------------------
(***************************************************************************)
(* C30.  in : [kind: "content"]           the whole sample                 *)
(*       out: [days, columns, rows (per column), archive (per column),     *)
(*             archive_days]                                               *)
(*       in : [kind: "history", ops: <<[what, frame, how]>>]               *)
(*       out: [archive: digest, seen: <<digest per access>>, exact: ...]   *)
(* Digests are over the labels and the values to nine digits; exact ones *)
(* over their bits.                                                        *)
(***************************************************************************)
EXTENDS TraceBase, Calendar
VARIABLES c, done
vars == <<c, done>>
Init == c \in 1 .. NCases /\ done = FALSE
Series == {"GOOGL", "GS", "JPM", "^GSPC"}
Content(o) ==
    Must("four series", {o.columns[i] : i \in Idx(o.columns)} = Series /\ Len(o.columns) = 4)
    \cup Must("dates increase", \A i \in 2 .. Len(o.days) : o.days[i - 1] < o.days[i])
    \cup (LET rows == {o.days[i] : i \in Idx(o.days)} IN
          MustD("a row for every trading day", TradingDays \subseteq rows, TradingDays \ rows)
          \cup MustD("rows on trading days only", rows \subseteq TradingDays, rows \ TradingDays))
    \cup Must("rows are those of the archive", o.days = o.archive_days)
    \cup UNION {MustD("finite returns above -100%", \A i \in Idx(o.rows[k]) : RIsFinite(o.rows[k][i]) /\ RGt(o.rows[k][i], -1), o.columns[k])
                \cup MustD("values are those of the archive", SNear(o.rows[k], o.archive[k], 0, "1E-12"), o.columns[k]) : k \in Idx(o.columns)}
History(q, o) ==
    Must("an access per call", Len(o.seen) = Cardinality({i \in Idx(q.ops) : q.ops[i].what # "modify"}))
    \cup Must("every access yields the sample", \A i \in Idx(o.seen) : o.seen[i] = o.archive)
    \cup Must("every access yields the same values", \A i \in Idx(o.exact) : o.exact[i] = o.exact[1])
Step ==
    /\ ~done /\ done' = TRUE /\ c' = c
    /\ Report(c, IF ~Returned(c) THEN MustD("returns", FALSE, Out(c).exc \o " " \o Out(c).msg)
                 ELSE IF In(c).kind = "content" THEN Content(Out(c)) ELSE History(In(c), Out(c)),
              Tag(In(c).kind, TRUE) \o
              (IF In(c).kind = "content" \/ ~Returned(c) THEN <<>> ELSE
               LET ops == {In(c).ops[i] : i \in Idx(In(c).ops)} IN
               Tag("modified before a later access", \E i, j \in Idx(In(c).ops) : i < j /\ In(c).ops[i].what = "modify" /\ In(c).ops[j].what # "modify")
               \o Tag("threads", \E x \in ops : x.what = "threads") \o Tag("another instance", \E x \in ops : x.what = "instance")
               \o Tag("labels changed in place", \E x \in ops : x.how \in {"columns.values", "index.values"})))
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================

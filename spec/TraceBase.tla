------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* What every trace specification shares.                                  *)
(*                                                                         *)
(* The harness records executions of the real code into one JSON array;    *)
(* element c is [id, mode, in, out], where out.exc = "" iff the call       *)
(* returned.  A trace specification has one initial state per recorded     *)
(* execution and consumes it step by step; it prints                       *)
(*     <<"FAIL", c, clause, detail>>   for each clause it violates         *)
(*     <<"DONE", c, tags>>             when it has been consumed           *)
(* so a verdict is total: an execution that is not explained names the     *)
(* clause, one that is not consumed is reported by the harness.            *)
(***************************************************************************)
EXTENDS Num, TLC, Json, IOUtils, FiniteSets

Cases == JsonDeserialize(IOEnv.FRDS_TRACE)
NCases == Len(Cases)

In(c)   == Cases[c].in
Out(c)  == Cases[c].out
Mode(c) == Cases[c].mode
Returned(c) == Cases[c].out.exc = ""

\* One clause of a specification: the set of violations it contributes.
Must(name, ok) == IF ok THEN {} ELSE {<<name, "">>}
MustD(name, ok, detail) == IF ok THEN {} ELSE {<<name, ToString(detail)>>}
\* nearness clause with the two values in the report
MustNear(name, got, want, scale, tol) ==
    IF RNear(got, want, scale, tol) THEN {} ELSE {<<name, "got " \o RStr(got) \o " want " \o RStr(want)>>}

Report(c, bad, tags) ==
    /\ \A b \in bad : PrintT("FRDS " \o ToJson(<<"FAIL", c, b[1], b[2]>>))
    /\ PrintT("FRDS " \o ToJson(<<"DONE", c, tags>>))

Tag(name, cond) == IF cond THEN <<name>> ELSE <<>>
=============================================================================

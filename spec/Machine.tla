------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* Arithmetic of arrays in the number type they came in.                   *)
(*                                                                         *)
(* An array of whole numbers may be of a signed or an unsigned type of any *)
(* width.  A kernel (sum, difference, product, negation) evaluated in that *)
(* type wraps around; evaluated on the numbers it does not.  The model     *)
(* takes two operands of any types with values at the ends of their ranges *)
(* (and next to them), applies NumPy's promotion, and emits every pair at  *)
(* which the two evaluations differ: these are the inputs on which a       *)
(* measure that forgets to convert shows.                                  *)
(*                                                                         *)
(* Widths are small stand-ins: Narrow < Wide < the widest.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Widths, Top        \* bits; the widest is Top
VARIABLES kernel, x, y, done
vars == <<kernel, x, y, done>>
Types == [signed : BOOLEAN, w : Widths] 
Lo(t) == IF t.signed THEN -(2 ^ (t.w - 1)) ELSE 0
Hi(t) == IF t.signed THEN 2 ^ (t.w - 1) - 1 ELSE 2 ^ t.w - 1
Holds(t, v) == Lo(t) <= v /\ v <= Hi(t)
Size(t) == Hi(t) - Lo(t) + 1
Wrap(t, v) == Lo(t) + ((v - Lo(t)) % Size(t))
Max2(a, b) == IF a < b THEN b ELSE a
\* "real": no whole-number type holds both, so NumPy computes with doubles
Promote(s, t) ==
    IF s.signed = t.signed THEN [signed |-> s.signed, w |-> Max2(s.w, t.w)]
    ELSE LET i == IF s.signed THEN s ELSE t
             u == IF s.signed THEN t ELSE s
         IN  IF i.w > u.w THEN i ELSE IF u.w < Top THEN [signed |-> TRUE, w |-> 2 * u.w] ELSE [signed |-> TRUE, w |-> 0]
IsReal(t) == t.w = 0
\* values by name, so that the driver can use the same places of the ranges of real types
Names == {"lo", "lo+1", "zero", "one", "two", "half", "hi-1", "hi"}
ValueOf(t, n) == CASE n = "lo" -> Lo(t) [] n = "lo+1" -> Lo(t) + 1 [] n = "zero" -> 0 [] n = "one" -> 1 [] n = "two" -> 2
                   [] n = "half" -> Hi(t) \div 2 + 1 [] n = "hi-1" -> Hi(t) - 1 [] n = "hi" -> Hi(t)
Operand == [t : Types, n : Names]
Kernels == {"sum", "difference", "product", "negation"}
Exact(k, a, b) == CASE k = "sum" -> a + b [] k = "difference" -> a - b [] k = "product" -> a * b [] k = "negation" -> -a
ResultType == IF kernel = "negation" THEN x.t ELSE Promote(x.t, y.t)
InMachine(k, a, b, t) == IF IsReal(t) THEN Exact(k, a, b) ELSE Wrap(t, Exact(k, Wrap(t, a), Wrap(t, b)))
a == ValueOf(x.t, x.n)
b == ValueOf(y.t, y.n)
Wrong == InMachine(kernel, a, b, ResultType) # Exact(kernel, a, b)
Init == /\ kernel \in Kernels /\ x \in Operand /\ y \in Operand
        /\ (kernel = "negation" => y = x) /\ done = FALSE
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED <<kernel, x, y>>
        /\ (Wrong => PrintT("FRDS " \o ToJson(<<"SCEN", [kernel |-> kernel, x |-> x, y |-> y]>>)))
Spec == Init /\ [][Emit]_vars
OperandsFit == Holds(x.t, a) /\ Holds(y.t, b)
\* promotion never loses an operand, ...
PromotionIsSafe == IsReal(ResultType) \/ (Holds(ResultType, a) /\ (kernel = "negation" \/ Holds(ResultType, b)))
\* ... and results are wrong exactly where the type does not hold them
WrongIffOutside == Wrong = (~IsReal(ResultType) /\ ~Holds(ResultType, Exact(kernel, a, b)))
\* a number that is read as a real first is never wrong
ConvertedIsExact == InMachine(kernel, a, b, [signed |-> TRUE, w |-> 0]) = Exact(kernel, a, b)
\* each kernel goes wrong for each type somewhere (differences of unsigned ones below zero, ...)
Dangerous(k, t) == \E n, m \in Names : LET e == Exact(k, ValueOf(t, n), ValueOf(t, m)) IN ~Holds(t, e)
ASSUME \A k \in Kernels, t \in Types : Dangerous(k, t)
=============================================================================

-------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* How an array's values lie in memory.  A layout is                       *)
(*   [dtype, steps, order, readonly, unaligned]                            *)
(* steps[k]: every |steps[k]|-th element along dimension k is used, from   *)
(* the end if negative, the same element throughout if 0 (constant values) *)
(* order: "C" or "F".  Results are functions of the values: the trace      *)
(* specification requires the same result for every layout.                *)
(*                                                                         *)
(* The model writes values through a layout into a buffer of junk, reads   *)
(* them back, and emits every call with every layout of each argument.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Functions,  \* fn -> the dimensions of each of its arguments
          Steps, DTypes, Deep
VARIABLES fn, args, buffer, done
vars == <<fn, args, buffer, done>>
Abs(x) == IF x < 0 THEN -x ELSE x
Plain(dim) == [dtype |-> "f8", steps |-> [k \in 1 .. dim |-> 1], order |-> "C", readonly |-> FALSE, unaligned |-> FALSE]
Layouts1 == {[dtype |-> d, steps |-> <<s>>, order |-> "C", readonly |-> ro, unaligned |-> un] :
             d \in DTypes, s \in Steps, ro \in BOOLEAN, un \in BOOLEAN}
Layouts2 == {[dtype |-> d, steps |-> <<s, t>>, order |-> o, readonly |-> FALSE, unaligned |-> FALSE] :
             d \in DTypes, s \in Steps \ {0}, t \in Steps \ {0}, o \in {"C", "F"}}
LayoutsOf(dim) == IF dim = 1 THEN Layouts1 ELSE Layouts2
\* addresses in elements, from the view's first element; a view of n x m elements
Shape(dim) == IF dim = 1 THEN <<3>> ELSE <<3, 2>>
Span(l, k, n) == IF l.steps[k] = 0 THEN 1 ELSE Abs(l.steps[k]) * (n - 1) + 1
Position(l, k, n, i) == IF l.steps[k] >= 0 THEN l.steps[k] * i ELSE Abs(l.steps[k]) * (n - 1 - i)
Address(l, idx) ==
    LET dim == Len(l.steps)
        sh == Shape(dim)
        p(k) == Position(l, k, sh[k], idx[k])
    IN  IF dim = 1 THEN p(1)
        ELSE IF l.order = "C" THEN p(1) * Span(l, 2, sh[2]) + p(2) ELSE p(2) * Span(l, 1, sh[1]) + p(1)
Indices(dim) == IF dim = 1 THEN {<<i>> : i \in 0 .. 2} ELSE {<<i, j>> : i \in 0 .. 2, j \in 0 .. 1}
Value(idx) == IF Len(idx) = 1 THEN 10 + idx[1] ELSE 10 + 2 * idx[1] + idx[2]
Size(l) == IF Len(l.steps) = 1 THEN Span(l, 1, 3) ELSE Span(l, 1, 3) * Span(l, 2, 2)
Written(l) == [a \in 0 .. Size(l) - 1 |->
    LET here == {idx \in Indices(Len(l.steps)) : Address(l, idx) = a} IN IF here = {} THEN -99 ELSE Value(CHOOSE idx \in here : TRUE)]
Read(l, buf, idx) == buf[Address(l, idx)]
Init == /\ fn \in DOMAIN Functions /\ args = <<>> /\ buffer = <<>> /\ done = FALSE
Dims == Functions[fn]
Odd(a) == {k \in 1 .. Len(a) : a[k] # Plain(Dims[k])}
Arg == /\ ~done /\ Len(args) < Len(Dims)
       /\ \E l \in (IF Odd(args) = {} \/ Deep THEN LayoutsOf(Dims[Len(args) + 1]) ELSE {}) \cup {Plain(Dims[Len(args) + 1])} :
            args' = Append(args, l) /\ buffer' = Append(buffer, Written(l))
       /\ UNCHANGED <<fn, done>>
Emit == /\ ~done /\ Len(args) = Len(Dims)
        /\ PrintT("FRDS " \o ToJson(<<"SCEN", [fn |-> fn, args |-> args]>>))
        /\ done' = TRUE /\ UNCHANGED <<fn, args, buffer>>
Next == Arg \/ Emit
Spec == Init /\ [][Next]_vars
\* what is written through a layout is what is read through it
ReadBack == \A k \in 1 .. Len(args) : 0 \notin {args[k].steps[j] : j \in 1 .. Len(args[k].steps)} =>
               \A idx \in Indices(Len(args[k].steps)) : Read(args[k], buffer[k], idx) = Value(idx)
\* a reader that ignores steps or order sees something else, so that the layouts can tell
Tells == \A k \in 1 .. Len(args) : args[k].steps # Plain(Len(args[k].steps)).steps \/ args[k].order = "F" =>
            \E idx \in Indices(Len(args[k].steps)) : LET a == Address(Plain(Len(args[k].steps)), idx) IN
               a \notin DOMAIN buffer[k] \/ buffer[k][a] # Value(idx)
StepsC == {1, 2, -1, -3, 0}
FunctionsC == [ewma |-> <<1>>, backcast |-> <<1>>, variance_bounds |-> <<1>>, bounds_check |-> <<1>>,
               garch_variance |-> <<1, 2>>, gjr_variance |-> <<1, 2>>, gjr_forecast |-> <<1>>, loglikelihood |-> <<1, 1>>,
               ccc_loglikelihood |-> <<1, 1, 1, 1>>, correlations |-> <<1, 1, 1, 1>>, dcc_loglikelihood |-> <<1, 1, 1, 1>>,
               simulation |-> <<2, 2>>, fit |-> <<1>>, gjr_fit |-> <<1>>, zero_mean_fit |-> <<1>>, ccc_fit |-> <<1, 1>>, dcc_fit |-> <<1, 1>>, lrmes |-> <<1, 1>>]
=============================================================================

--------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* Real arithmetic for the frds specifications.                            *)
(*                                                                         *)
(* A real is written as an integer (3), a decimal string ("0.94",          *)
(* "-1.5E-7") or a fraction string ("1/3"); "NaN", "Infinity" and          *)
(* "-Infinity" are values too, so every operator is total, as IEEE         *)
(* arithmetic is.  TLC evaluates these operators with java/Num.java        *)
(* (40-digit decimals, no frds formula in it); the bodies below are their  *)
(* mathematical meaning, and SelfTest.tla checks the evaluator against the *)
(* laws that characterise them.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsReal(x) == TRUE

\* evaluated by java/Num.java
RVal(a)      == a                        \* parse
RStr(a)      == a                        \* decimal rendering, 17 digits
RIsNaN(a)    == a = "NaN"
RIsFinite(a) == a \notin {"NaN", "Infinity", "-Infinity"}
RNeg(a)      == -a
RAdd(a, b)   == a + b
RSub(a, b)   == a - b
RMul(a, b)   == a * b
RDiv(a, b)   == CHOOSE q : q * b = a
RSqrt(a)     == CHOOSE r : r * r = a /\ r >= 0
RLn(a)       == CHOOSE y : TRUE          \* the y with exp(y) = a
RExp(a)      == CHOOSE y : TRUE          \* exp(0)=1, exp(a+b)=exp(a)exp(b), exp(1)=e
RPhi(a)      == CHOOSE y : TRUE          \* the standard normal distribution function
RAbs(a)      == IF a < 0 THEN -a ELSE a
RLt(a, b)    == a < b                    \* false if either is NaN
RLe(a, b)    == a <= b                   \* false if either is NaN
REq(a, b)    == a = b                    \* false if either is NaN
RIPow(a, n)  == a ^ n                    \* integer exponent
RFloor(a)    == CHOOSE n \in Int : n <= a /\ a < n + 1
RSum(s)      == CHOOSE y : TRUE          \* sum of a sequence
RSeq(s)      == s                        \* the sequence, evaluated once
RDot(s, t)   == CHOOSE y : TRUE          \* sum of s[i]*t[i]
RArgSort(s)  == CHOOSE y : TRUE          \* permutation of DOMAIN s, ascending, stable
RPi          == CHOOSE y : TRUE

(***************************************************************************)
(* Everything below is plain TLA+.                                         *)
(***************************************************************************)
RGt(a, b)  == RLt(b, a)
RGe(a, b)  == RLe(b, a)
RNe(a, b)  == ~REq(a, b)
RMin2(a, b) == IF RLe(a, b) THEN a ELSE b
RMax2(a, b) == IF RLe(a, b) THEN b ELSE a
RClip(x, lo, hi) == RMin2(RMax2(x, lo), hi)
RSq(a)     == RMul(a, a)
RPow(a, b) == RExp(RMul(b, RLn(a)))      \* a > 0
RInv(a)    == RDiv(1, a)

\* |x - y| <= tol * (scale), where NaN matches NaN and infinities match themselves
RSame(x, y) == \/ RIsNaN(x) /\ RIsNaN(y)
               \/ REq(x, y)
RNear(x, y, scale, tol) ==
    \/ RSame(x, y)
    \/ /\ RIsFinite(x) /\ RIsFinite(y)
       /\ RLe(RAbs(RSub(x, y)), RMul(tol, RAdd(RAbs(scale), RMax2(RAbs(x), RAbs(y)))))
RClose(x, y, tol) == RNear(x, y, 0, tol)

------------------------------------------------------------------------------
\* sequences of reals
Idx(s)  == 1 .. Len(s)
SMap(Op(_), s) == [i \in Idx(s) |-> Op(s[i])]
SZip(Op(_, _), s, t) == [i \in Idx(s) |-> Op(s[i], t[i])]
SAbs(s) == [i \in Idx(s) |-> RAbs(s[i])]
SSq(s)  == [i \in Idx(s) |-> RSq(s[i])]
SScale(k, s) == [i \in Idx(s) |-> RMul(k, s[i])]
SShift(s, c) == [i \in Idx(s) |-> RAdd(s[i], c)]       \* also evaluated by Num.java
SMean(s) == RDiv(RSum(s), Len(s))
Centred(s) == SShift(s, RNeg(SMean(s)))
SCov(s, t) == RDiv(RDot(Centred(s), Centred(t)), Len(s))   \* population
SVar(s)  == SCov(s, s)                                  \* ddof = 0
SVar1(s) == RMul(SVar(s), RDiv(Len(s), Len(s) - 1))      \* ddof = 1
SStd(s)  == RSqrt(SVar(s))
SCorr(s, t) == RDiv(SCov(s, t), RSqrt(RMul(SVar(s), SVar(t))))
SSorted(s) == LET p == RArgSort(s) IN [i \in Idx(s) |-> s[p[i]]]
SMax(s) == LET p == RArgSort(s) IN s[p[Len(s)]]
SMin(s) == LET p == RArgSort(s) IN s[p[1]]
SMaxAbs(s) == IF s = <<>> THEN 0 ELSE SMax(SAbs(s))
SSub(s, a, b) == [i \in 1 .. (b - a + 1) |-> s[a + i - 1]]
SNear(s, t, scale, tol) ==
    /\ Len(s) = Len(t)
    /\ \A i \in Idx(s) : RNear(s[i], t[i], scale, tol)
SFinite(s) == \A i \in Idx(s) : RIsFinite(s[i])
=============================================================================

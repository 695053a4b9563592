------------------------------ MODULE SelfTest ------------------------------
(* Checks the TLC evaluator of Num against the laws that define its operators. *)
EXTENDS Num, TLC, FiniteSets
Vals == {"0", "1", "-1", "2.5", "-0.3", "1/3", "1E-12", "-7.25E+9", "123456.789", "0.999999999999"}
Pos  == {x \in Vals : RLt(0, x)}
T == "1E-36"
Specials == {"NaN", "Infinity", "-Infinity"}
VARIABLES a, b, c
Init == a \in Vals /\ b \in Vals /\ c \in Vals
Next == FALSE /\ UNCHANGED <<a, b, c>>
FieldLaws ==
  /\ RClose(RAdd(a, b), RAdd(b, a), T) /\ RClose(RMul(a, b), RMul(b, a), T)
  /\ RNear(RAdd(RAdd(a, b), c), RAdd(a, RAdd(b, c)), RAdd(RAbs(a), RAdd(RAbs(b), RAbs(c))), T)
  /\ RNear(RMul(a, RAdd(b, c)), RAdd(RMul(a, b), RMul(a, c)), RAdd(RAbs(RMul(a, b)), RAbs(RMul(a, c))), T)
  /\ REq(RAdd(a, RNeg(a)), 0) /\ REq(RAdd(a, 0), a) /\ REq(RMul(a, 1), a)
  /\ RNe(b, 0) => RClose(RMul(RDiv(a, b), b), a, T)
  /\ REq(RSub(a, b), RAdd(a, RNeg(b)))
  /\ (RLe(a, b) \/ RLe(b, a)) /\ (RLe(a, b) /\ RLe(b, a) => REq(a, b)) /\ (RLe(a,b) /\ RLe(b,c) => RLe(a,c))
  /\ RLe(a, b) => RLe(RAdd(a, c), RAdd(b, c))
  /\ RLt(a, b) <=> ~RLe(b, a)
FuncLaws ==
  /\ RLe(0, a) => RClose(RSq(RSqrt(a)), a, T)
  /\ RLt(0, a) => RNear(RExp(RLn(a)), a, 0, "1E-34")
  /\ (RLt(0, a) /\ RLt(0, b)) => RNear(RLn(RMul(a, b)), RAdd(RLn(a), RLn(b)), RAdd(RAbs(RLn(a)), RAbs(RLn(b))), T)
  /\ (RLt(RAbs(a), 1000000) /\ RLt(RAbs(b), 1000000) /\ RLt(RAdd(RAbs(a),RAbs(b)), 100000))
        => RNear(RExp(RAdd(a, b)), RMul(RExp(a), RExp(b)), 0, "1E-32")
  /\ RNear(RAdd(RPhi(a), RPhi(RNeg(a))), 1, 1, T)
  /\ (RLt(a, b) => RLe(RPhi(a), RPhi(b)))
  /\ RClose(RIPow(a, 3), RMul(a, RMul(a, a)), T)
  /\ LET n == IF RLt(RAbs(a), 1000000) THEN RFloor(a) ELSE 0 IN RLt(RAbs(a), 1000000) => RLe(n, a) /\ RLt(a, n + 1)
  /\ RClose(RSum(<<a, b, c>>), RAdd(a, RAdd(b, c)), T) \/ RNear(RSum(<<a, b, c>>), RAdd(a, RAdd(b, c)), RAdd(RAbs(a), RAdd(RAbs(b), RAbs(c))), T)
  /\ REq(RDot(<<a, b>>, <<b, c>>), RAdd(RMul(a, b), RMul(b, c)))
  /\ LET s == SSorted(<<a, b, c>>) IN RLe(s[1], s[2]) /\ RLe(s[2], s[3]) /\ {RStr(s[i]) : i \in 1..3} = {RStr(a), RStr(b), RStr(c)}
\* d/dx Phi = phi: symmetric difference quotient at a
PhiDerivative == RLt(RAbs(a), 20) =>
   LET h == "1E-10"
       q == RDiv(RSub(RPhi(RAdd(a, h)), RPhi(RSub(a, h))), RMul(2, h))
   IN RNear(q, RDiv(RExp(RDiv(RSq(a), -2)), RSqrt(RMul(2, RPi))), 0, "1E-17")
ASSUME RClose(RLn(2),  "0.6931471805599453094172321214581765680755", "1E-38")
ASSUME RClose(RLn(10), "2.302585092994045684017991454684364207601", "1E-38")
ASSUME RClose(RExp(1), "2.718281828459045235360287471352662497757", "1E-38")
ASSUME RClose(RPi,     "3.141592653589793238462643383279502884197", "1E-38")
ASSUME RClose(RPhi("1.96"), "0.9750021048517795658634157", "1E-24")
ASSUME RClose(RPhi(-8), "6.220960574271784123515995E-16", "1E-23")
ASSUME RClose(RPhi(-40), "3.655893540915029E-350", "1E-14")
ASSUME REq(RPhi(0), "0.5") /\ RIsNaN(RDiv(0, 0)) /\ REq(RDiv(1, 0), "Infinity") /\ REq(RLn(0), "-Infinity")
ASSUME RIsNaN(RSub("Infinity", "Infinity")) /\ RIsNaN(RSqrt(-1)) /\ RIsNaN(RMul(0, "Infinity")) /\ ~RLe("NaN", 1) /\ ~REq("NaN", "NaN")
ASSUME RLt("-Infinity", "Infinity") /\ RLt("-1E+90", 1) /\ REq("1/4", "0.25") /\ REq(RExp("-Infinity"), 0)
=============================================================================

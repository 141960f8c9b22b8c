-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Real numbers for TLC.  A real is a string (decimal, C hexfloat, "n/d",  *)
(* "nan", "inf", "-inf") or a TLA+ integer; results are canonical decimal  *)
(* strings carrying 60 significant digits.  Every operator is evaluated by *)
(* java/RealOverrides.java; the bodies below only document the signatures. *)
(***************************************************************************)
LOCAL INSTANCE Integers

R(a) == a                               \* canonical form
RAdd(a, b) == CHOOSE x \in {} : TRUE
RSub(a, b) == CHOOSE x \in {} : TRUE
RMul(a, b) == CHOOSE x \in {} : TRUE
RDiv(a, b) == CHOOSE x \in {} : TRUE    \* IEEE conventions when b = 0
RNeg(a) == CHOOSE x \in {} : TRUE
RAbs(a) == CHOOSE x \in {} : TRUE
RLt(a, b) == CHOOSE x \in {} : TRUE     \* FALSE when either is nan
RLeq(a, b) == CHOOSE x \in {} : TRUE
REq(a, b) == CHOOSE x \in {} : TRUE
RSame(a, b) == CHOOSE x \in {} : TRUE   \* as REq, but nan is the same as nan
RIsFinite(a) == CHOOSE x \in {} : TRUE
RIsNan(a) == CHOOSE x \in {} : TRUE
RNear(a, b, rtol, atol) == CHOOSE x \in {} : TRUE  \* |a-b| <= atol + rtol*max(|a|,|b|)
RSqrt(a) == CHOOSE x \in {} : TRUE
RExp(a) == CHOOSE x \in {} : TRUE
RLog(a) == CHOOSE x \in {} : TRUE
RSin(a) == CHOOSE x \in {} : TRUE
RCos(a) == CHOOSE x \in {} : TRUE
RAcos(a) == CHOOSE x \in {} : TRUE     \* angle in [0, pi]; nan outside [-1, 1]
RPi == CHOOSE x \in {} : TRUE
RDouble(a) == CHOOSE x \in {} : TRUE    \* nearest IEEE double
RPlain(a) == CHOOSE x \in {} : TRUE    \* decimal text without exponent
RFloor(a) == CHOOSE x \in {} : TRUE     \* as a TLA+ integer

RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RSq(a) == RMul(a, a)
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN "1" ELSE RMul(a, RPow(a, k - 1))
=============================================================================

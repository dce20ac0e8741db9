-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic for TLC.                                         *)
(* A number is a TLC integer or a string: "n", "n/d", a decimal literal or a  *)
(* C hexfloat ("0x1.8p+1", which is how the drivers record a double).  "nan"  *)
(* stands for every non-finite number and absorbs every operation.            *)
(* Results carry, besides the exact value, a magnitude ("n/d~m"): the size of *)
(* the intermediate results that led to it.  RClose compares a recorded       *)
(* double with an expected number up to the rounding error an evaluation in   *)
(* floating point can commit in any order of operations (1e-9 of magnitude),  *)
(* so a re-association of a sum is never reported and a wrong term always is. *)
(* RVar/RDer give dual numbers: every operation also propagates derivatives.  *)
(* TLC evaluates spec/java/Rat.java in place of the CHOOSE bodies.            *)
EXTENDS Integers, Sequences

RNum(x)        == CHOOSE y \in STRING : TRUE     \* canonical form of x
RFin(x)        == CHOOSE y \in BOOLEAN : TRUE    \* x is finite
RAdd(x, y)     == CHOOSE z \in STRING : TRUE     \* x + y
RSub(x, y)     == CHOOSE z \in STRING : TRUE     \* x - y
RMul(x, y)     == CHOOSE z \in STRING : TRUE     \* x * y
RDiv(x, y)     == CHOOSE z \in STRING : TRUE     \* x / y, "nan" if y = 0
RNeg(x)        == CHOOSE z \in STRING : TRUE
RAbs(x)        == CHOOSE z \in STRING : TRUE
REq(x, y)      == CHOOSE z \in BOOLEAN : TRUE    \* exact equality of values
RLeq(x, y)     == CHOOSE z \in BOOLEAN : TRUE
RLt(x, y)      == CHOOSE z \in BOOLEAN : TRUE
RClose(a, e)   == CHOOSE z \in BOOLEAN : TRUE    \* recorded a agrees with expected e
RVClose(s, t)  == CHOOSE z \in BOOLEAN : TRUE    \* same for sequences (equal length)
RTie(x, y)     == CHOOSE z \in BOOLEAN : TRUE    \* rounding may decide x < y either way
\* |x - y| <= tol * max(|y|, |scale|); FALSE when either is non-finite
RNear(x, y, scale, tol) == CHOOSE z \in BOOLEAN : TRUE
RSum(s)        == CHOOSE z \in STRING : TRUE     \* sum of a sequence
RDot(s, t)     == CHOOSE z \in STRING : TRUE     \* sum of products
RMaxAbs(s)     == CHOOSE z \in STRING : TRUE     \* max |s[i]|, 0 for <<>>
RIPow(x, k)    == CHOOSE z \in STRING : TRUE     \* x^k, k a TLC integer
RIsInt(x)      == CHOOSE z \in BOOLEAN : TRUE
RTrunc(x)      == CHOOSE z \in Int : TRUE
\* irrational functions: sqrt to 50 digits, the others to double precision
RSqrt(x)       == CHOOSE z \in STRING : TRUE
RExp(x)        == CHOOSE z \in STRING : TRUE
RLn(x)         == CHOOSE z \in STRING : TRUE
RLog10(x)      == CHOOSE z \in STRING : TRUE
RSin(x)        == CHOOSE z \in STRING : TRUE
RCos(x)        == CHOOSE z \in STRING : TRUE
RTan(x)        == CHOOSE z \in STRING : TRUE
RTanh(x)       == CHOOSE z \in STRING : TRUE
RAsin(x)       == CHOOSE z \in STRING : TRUE
RAcos(x)       == CHOOSE z \in STRING : TRUE
RAtan(x)       == CHOOSE z \in STRING : TRUE
RPow(x, y)     == CHOOSE z \in STRING : TRUE
\* dual numbers
RVal(x)        == CHOOSE z \in STRING : TRUE     \* value without derivatives
RDer(x, i)     == CHOOSE z \in STRING : TRUE     \* i-th derivative of x
RDual(x, d)    == CHOOSE z \in STRING : TRUE     \* x with the single derivative d
RVar(x, i, k)  == CHOOSE z \in STRING : TRUE     \* independent variable i of k, at x
\* the magnitude a number carries
RMag(x)        == CHOOSE z \in STRING : TRUE
RBare(x)       == CHOOSE z \in STRING : TRUE     \* the value alone, its magnitude that of itself
\* inverse of a square matrix (a sequence of rows), << >> when it is singular
RInverse(A)    == CHOOSE B \in Seq(Seq(STRING)) : TRUE

RMax(x, y)     == IF RLeq(x, y) THEN y ELSE x
RMin(x, y)     == IF RLeq(x, y) THEN x ELSE y
RIsZero(x)     == REq(x, 0)
=============================================================================

------------------------------- MODULE BigRat -------------------------------
(***************************************************************************)
(* Exact rational and complex-rational arithmetic.  TLC's own integers are *)
(* 32 bit, so rationals are carried as canonical strings "n" or "n/d"      *)
(* (d > 1, gcd(n,d) = 1) and the operators below are evaluated by          *)
(* BigRat.java (java.math.BigInteger).  Complex numbers are pairs          *)
(* <<re, im>> of rationals.  A double precision number is a dyadic         *)
(* rational, so every number the implementation produces has an exact      *)
(* image here, and every comparison "equal up to tol" is itself evaluated  *)
(* exactly.  "nan" is an absorbing value (a non-finite number, or x/0): it *)
(* compares FALSE with everything, so a verdict is never undefined.        *)
(* The bodies only document the signatures; TLC never evaluates them.      *)
(***************************************************************************)
LOCAL Undefined == CHOOSE x : x \notin {}

RInt(i)      == Undefined   \* TLC integer -> rational
RAdd(a, b)   == Undefined
RSub(a, b)   == Undefined
RMul(a, b)   == Undefined
RDiv(a, b)   == Undefined
RNeg(a)      == Undefined
RAbs(a)      == Undefined
RLe(a, b)    == Undefined   \* a <= b
RLt(a, b)    == Undefined   \* a <  b
REq(a, b)    == Undefined
RSign(a)     == Undefined   \* -1, 0, 1 as a TLC integer (0 for nan)
RSumSeq(s)   == Undefined   \* sum of a sequence of rationals
RProdSeq(s)  == Undefined
RDot(s, t)   == Undefined   \* sum_i s[i]*t[i]
RExp(a)      == Undefined   \* exp, rounded to double precision
RSqrt(a)     == Undefined   \* square root, rounded to double precision
RLog(a)      == Undefined   \* natural logarithm, rounded to double precision
RTrunc(a, k) == Undefined   \* a rounded to k binary fraction digits
RFloor(a)    == Undefined   \* floor, as a TLC integer
RMax(s)      == Undefined   \* maximum of a non-empty sequence
RClose(a, b, tol) == Undefined  \* |a - b| <= tol * (1 + |a| + |b|)

CAdd(a, b)   == Undefined
CSub(a, b)   == Undefined
CMul(a, b)   == Undefined
CDiv(a, b)   == Undefined
CConj(a)     == Undefined
CScale(r, a) == Undefined   \* rational times complex
CAbs2(a)     == Undefined   \* |a|^2
CSumSeq(s)   == Undefined
CProdSeq(s)  == Undefined
CDot(s, t)   == Undefined   \* sum_i s[i]*t[i], no conjugation
CExp(a)      == Undefined   \* rounded to double precision
CClose(a, b, tol) == Undefined  \* |a-b|_1 <= tol * (1 + |a|_1 + |b|_1)
CDet(m)      == Undefined   \* determinant of a square matrix (sequence of rows)
CTrunc(a, k) == Undefined
(* Relative closeness without the absolute term *)
CCloseRel(a, b, tol) == Undefined  \* |a-b|_1 <= tol * (|a|_1 + |b|_1)
=============================================================================

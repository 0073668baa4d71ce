-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 binary64 arithmetic for TLC.  A double is a pair <<hi, lo>> of *)
(* signed 32-bit integers: the upper and lower half of its bit pattern.    *)
(* The operators are evaluated by java/F64.java (TLC module override);     *)
(* the definitions below only state what they mean.                        *)
(***************************************************************************)
EXTENDS Integers

F64 == Int \X Int

FInt(n)      == CHOOSE x \in F64 : TRUE  \* the integer n as a double
FPow2(k)     == CHOOSE x \in F64 : TRUE  \* 2^k, k any integer
FParse(s)    == CHOOSE x \in F64 : TRUE  \* the double nearest to the decimal literal s
FAdd(a, b)   == CHOOSE x \in F64 : TRUE
FSub(a, b)   == CHOOSE x \in F64 : TRUE
FMul(a, b)   == CHOOSE x \in F64 : TRUE
FDiv(a, b)   == CHOOSE x \in F64 : TRUE
FNeg(a)      == CHOOSE x \in F64 : TRUE
FAbs(a)      == CHOOSE x \in F64 : TRUE
FLn(a)       == CHOOSE x \in F64 : TRUE  \* natural logarithm
FSqrt(a)     == CHOOSE x \in F64 : TRUE
FLe(a, b)    == CHOOSE x \in BOOLEAN : TRUE
FLt(a, b)    == CHOOSE x \in BOOLEAN : TRUE
FFinite(a)   == CHOOSE x \in BOOLEAN : TRUE  \* neither infinite nor NaN
FIsNaN(a)    == CHOOSE x \in BOOLEAN : TRUE
\* |a - b| <= 10^-d * (|a| + |b| + s), false when one of them is not finite
FClose(a, b, d, s) == CHOOSE x \in BOOLEAN : TRUE
\* the integer part of a as a decimal string (a finite)
FTruncStr(a) == CHOOSE x \in STRING : TRUE
FShow(a)     == CHOOSE x \in STRING : TRUE
=============================================================================

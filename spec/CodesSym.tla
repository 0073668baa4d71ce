------------------------------ MODULE CodesSym ------------------------------
(***************************************************************************)
(* Laws of the codes and of their encoded length, for Apalache: all        *)
(* prefixes, rests and precisions of the crate, all 32-bit numbers,        *)
(* symbolically (the invariants are checked of the initial states).        *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  p,
  \* @type: Int;
  pre,
  \* @type: Int;
  r,
  \* @type: Int;
  pre2,
  \* @type: Int;
  r2,
  \* @type: Int;
  x,
  \* @type: Int;
  y

\* 2^(25 - p)
\* @type: Int => Int;
Span(k) == IF k = 4 THEN 2097152 ELSE IF k = 5 THEN 1048576 ELSE IF k = 6 THEN 524288
      ELSE IF k = 7 THEN 262144 ELSE IF k = 8 THEN 131072 ELSE IF k = 9 THEN 65536
      ELSE IF k = 10 THEN 32768 ELSE IF k = 11 THEN 16384 ELSE IF k = 12 THEN 8192
      ELSE IF k = 13 THEN 4096 ELSE IF k = 14 THEN 2048 ELSE IF k = 15 THEN 1024
      ELSE IF k = 16 THEN 512 ELSE IF k = 17 THEN 256 ELSE 128

\* @type: (Int, Int, Int) => Int;
Encode(s, a, b) == IF a % s = 0 THEN a * 128 + 2 * b + 1 ELSE 2 * a
\* @type: (Int, Int) => Int;
Index(s, c) == IF c % 2 = 1 THEN c \div (128 * s) ELSE (c \div 2) \div s

Init ==
  /\ p \in 4..18
  /\ pre \in 0..33554431 /\ pre2 \in 0..33554431
  /\ r \in 1..40 /\ r2 \in 1..40
  /\ x \in 0..4294967295 /\ y \in 0..4294967295
  /\ x + y <= 4294967295

Next == UNCHANGED <<p, pre, r, pre2, r2, x, y>>

\* The bucket survives, and so does what the rank is computed from.
Recovers == \A k \in 4..18 :
  LET s == Span(k)
      c == Encode(s, pre, r)
  IN  /\ c <= 4294967295
      /\ Index(s, c) = pre \div s
      /\ (c % 2 = 1) = (pre % s = 0)
      /\ c % 2 = 1 => (c % 128) \div 2 = r
      /\ c % 2 = 0 => (c \div 2) % s = pre % s

\* Codes are equal exactly when the kept information is.
Distinct == \A k \in 4..18 :
  LET s == Span(k) IN
  (Encode(s, pre, r) = Encode(s, pre2, r2)) <=> (pre = pre2 /\ (pre % s = 0 => r = r2))

\* @type: Int => Int;
VarLen(v) == IF v < 128 THEN 1 ELSE IF v < 16384 THEN 2 ELSE IF v < 2097152 THEN 3
        ELSE IF v < 268435456 THEN 4 ELSE 5

\* Splitting a difference never makes the list shorter: more entries never
\* encode shorter.
Subadditive == VarLen(x + y) <= VarLen(x) + VarLen(y)

Laws == Recovers /\ Distinct /\ Subadditive
=============================================================================

------------------------------ MODULE HLLBits ------------------------------
(***************************************************************************)
(* What the sketches see of a hash.  A 64-bit hash is a sequence of four   *)
(* 16-bit limbs, most significant first; bit 0 is the most significant.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Bit(h, i) == (h[(i \div 16) + 1] \div 2^(15 - (i % 16))) % 2

\* The integer formed by the n bits from..from+n-1 (n < 31).
RECURSIVE Field(_, _, _)
Field(h, from, n) ==
    IF n = 0 THEN 0
    ELSE LET take == IF 16 - (from % 16) < n THEN 16 - (from % 16) ELSE n
             limb == h[(from \div 16) + 1]
             part == (limb \div 2^(16 - (from % 16) - take)) % 2^take
         IN  part * 2^(n - take) + Field(h, from + take, n - take)

\* Number of zero bits at positions from, from+1, ... before the first one
\* bit or the end `to` (exclusive).
RECURSIVE ZeroRun(_, _, _)
ZeroRun(h, from, to) ==
    IF from >= to THEN 0
    ELSE IF from % 16 = 0 /\ from + 16 <= to /\ h[(from \div 16) + 1] = 0
         THEN 16 + ZeroRun(h, from + 16, to)
         ELSE IF Bit(h, from) = 1 THEN 0 ELSE 1 + ZeroRun(h, from + 1, to)

\* HyperLogLog++: bucket and rank of a 64-bit hash for precision p.
PlusBucket(h, p) == Field(h, 0, p)
PlusRank(h, p)   == 1 + ZeroRun(h, p, 64)

\* HyperLogLog++ small form: a 25-bit prefix and the rank of the remaining
\* 39 bits are all that is kept.
PlusPrefix(h) == Field(h, 0, 25)
PlusRest(h)   == 1 + ZeroRun(h, 25, 64)

\* HyperLogLog: only the low 32 bits count.
PFBucket(h, p) == Field(h, 32, p)
PFRank(h, p)   == 1 + ZeroRun(h, 32 + p, 64)

\* Number of leading zeros of x seen as a w-bit number.
RECURSIVE LeadZeros(_, _)
LeadZeros(x, w) == IF w = 0 \/ x >= 2^(w - 1) THEN 0 ELSE 1 + LeadZeros(x, w - 1)
=============================================================================

----------------------------- MODULE Registers -----------------------------
(***************************************************************************)
(* Registers packed into words, with the number of zero registers kept     *)
(* alongside, as in src/common.rs.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS RegBits,        \* 6 for HyperLogLog++, 5 for HyperLogLog
          PerWord         \* registers per word: 5 and 6

RM == 2^RegBits
Words(count) == (count + PerWord - 1) \div PerWord
WithCount(count) == [w |-> [i \in 1..Words(count) |-> 0], count |-> count, zeros |-> count]

Shift(i) == 2^(RegBits * (i % PerWord))
Slot(i)  == (i \div PerWord) + 1
Get(r, i) == (r.w[Slot(i)] \div Shift(i)) % RM

SetGreater(r, i, v) ==
    LET cur == Get(r, i) IN
    IF v > cur
    THEN [r EXCEPT !.w[Slot(i)] = @ + (v - cur) * Shift(i),
                   !.zeros = IF cur = 0 THEN @ - 1 ELSE @]
    ELSE r

\* the register values, in order
Values(r) == [i \in 0..(r.count - 1) |-> Get(r, i)]
=============================================================================

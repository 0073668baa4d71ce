------------------------------ MODULE GenRuns ------------------------------
(* Elements for Gen: singles (flagged, unflagged, sharing a bucket), and    *)
(* runs that together reach, and pass, the limit of the small form.         *)
EXTENDS Gen
Sp == SpanL
Single(s, r) == [s |-> s, d |-> 1, n |-> 1, r |-> r]
Dense(b, from, n) == [s |-> b * Sp + from, d |-> 1, n |-> n, r |-> 2]
F1 == Single(3 * Sp, 5)                      \* flagged
U1 == Single(3 * Sp + 7, 1)                  \* same bucket, not flagged
F2 == Single(3 * Sp, 40)                     \* flagged, same prefix, all rest bits zero
Part == (Limit * 3) \div 5
A == Dense(5, 1, Part)
B == Dense(5, 1 + Part \div 2, Part)         \* overlaps A
C == Dense(6, 1, (Limit * 9) \div 20)
Small3 == <<F1, A, C>>
Small4 == <<F1, U1, A, C>>
Small5 == <<F1, U1, A, B, C>>
Tiny   == <<F1, U1, F2, Single(9 * Sp, 3), Single(11 * Sp + 1, 1), Single(12 * Sp + 5, 6)>>
=============================================================================

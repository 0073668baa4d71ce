------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The compressed list of the small form, as the code keeps it: a sequence *)
(* of bytes that holds the differences of an increasing sequence of        *)
(* numbers, each in groups of VarBits bits, lowest first, with a           *)
(* continuation bit on all but the last group.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT VarBits          \* 7 in the crate
VB == 2^VarBits

RECURSIVE VarBytes(_)
VarBytes(v) == IF v < VB THEN <<v>> ELSE <<(v % VB) + VB>> \o VarBytes(v \div VB)

EmptyList == [bytes |-> <<>>, last |-> 0, count |-> 0]

Push(l, v) == [bytes |-> l.bytes \o VarBytes(v - l.last), last |-> v, count |-> l.count + 1]

\* <<decoded number, position after it>>
RECURSIVE VarAt(_, _)
VarAt(b, i) == IF b[i] < VB THEN <<b[i], i + 1>>
               ELSE LET r == VarAt(b, i + 1) IN <<(b[i] - VB) + VB * r[1], r[2]>>

RECURSIVE IterFrom(_, _, _)
IterFrom(b, i, last) ==
    IF i > Len(b) THEN <<>>
    ELSE LET r == VarAt(b, i) IN <<last + r[1]>> \o IterFrom(b, r[2], last + r[1])

Iter(l) == IterFrom(l.bytes, 1, 0)
Bytes(l) == Len(l.bytes)
=============================================================================

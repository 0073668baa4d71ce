------------------------------- MODULE HLLPF -------------------------------
(***************************************************************************)
(* L1: HyperLogLog shaped like src/hyperloglog.rs: packed registers and    *)
(* nothing else.  A hash is a record [b, r]: bucket and rank.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Registers

CONSTANT P
M == 2^P

Fresh == WithCount(M)
DoInsert(s, h) == SetGreater(s, h.b, h.r)
DoMerge(s, o) == FoldLeft(LAMBDA acc, i : SetGreater(acc, i - 1, Get(o, i - 1)), s,
                          [i \in 1..M |-> i])
Seen(s) == Values(s)

Answer(H) == [b \in 0..(M - 1) |-> Max({0} \cup {h.r : h \in {x \in H : x.b = b}})]
=============================================================================

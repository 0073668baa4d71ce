------------------------------ MODULE MCPlusA ------------------------------
(***************************************************************************)
(* Choices of hashes for MCPlus: flagged prefixes with two rests, two      *)
(* prefixes of one bucket with the same and with different ranks, and      *)
(* other buckets.                                                          *)
(***************************************************************************)
EXTENDS MCPlus

HH(p, r) == [pre |-> p, r |-> r]
MC3 == {{HH(0, 1), HH(0, 3), HH(6, 2)}}
MC4 == {{HH(0, 1), HH(0, 3), HH(5, 1), HH(15, 1)}}
MC5 == {{HH(0, 3), HH(5, 1), HH(6, 2), HH(12, 3), HH(12, 1)}}
MC6 == {{HH(0, 1), HH(0, 3), HH(5, 1), HH(6, 2), HH(12, 3), HH(15, 1)}}
\* every choice of n hashes
MCAll2 == AllOfSize(2)
MCAll3 == AllOfSize(3)
=============================================================================

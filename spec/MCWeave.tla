------------------------------ MODULE MCWeave ------------------------------
(***************************************************************************)
(* Weave of HLLPlus, for every set of unprocessed entries and every list   *)
(* of a few numbers: a strictly increasing list of the entries of both,    *)
(* which is what WeaveProof proves the loop to end with for lists of any   *)
(* length, so the two are one function; and the list is, byte for byte,    *)
(* the one that is written when all its entries come in order.             *)
(***************************************************************************)
EXTENDS HLLPlus

CONSTANTS Top             \* entries are 0 .. Top
VARIABLES new, old

Init == new \in SUBSET (0..Top) /\ old \in SUBSET (0..Top)
Next == FALSE /\ UNCHANGED <<new, old>>

Sorted(s) == SetToSortSeq(s, <)
InOrder(s) == FoldLeft(Push, EmptyList, Sorted(s))

Woven == LET l == Weave(Sorted(new), Iter(InOrder(old)), EmptyList) IN
         /\ Iter(l) = Sorted(new \cup old)
         /\ l = InOrder(new \cup old)
         /\ l.count = Cardinality(new \cup old)
         /\ Bytes(l) <= Bytes(InOrder(new)) + Bytes(InOrder(old))
=============================================================================

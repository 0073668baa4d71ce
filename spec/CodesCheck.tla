----------------------------- MODULE CodesCheck -----------------------------
(***************************************************************************)
(* The codes of the small form keep what the large form needs: for every   *)
(* hash, index and rank recovered from its code are those computed from    *)
(* the hash directly, codes differ exactly when the kept information does, *)
(* and codes fit 32 bits.  One state per prefix.                           *)
(***************************************************************************)
EXTENDS HLLPlus

CONSTANT PrefixSet
VARIABLE pre

Init == pre \in PrefixSet
Next == UNCHANGED pre

H(r) == [pre |-> pre, r |-> r]
Ranks == 1..(RestBits + 1)

SameAnswer == \A r \in Ranks :
    /\ CodeIndex(EncodeHash(H(r))) = HashIndex(H(r))
    /\ CodeRank(EncodeHash(H(r))) = HashRank(H(r))
RankInRange == \A r \in Ranks : HashRank(H(r)) \in 1..(RestBits + PPbits - P + 1) /\ HashRank(H(r)) < RM
FlagRight == \A r \in Ranks : IsFlagged(EncodeHash(H(r))) <=> pre % SpanL = 0
KeepsRest == \A r, q \in Ranks :
    (EncodeHash(H(r)) = EncodeHash(H(q))) <=> (r = q \/ pre % SpanL # 0)
\* a code determines its prefix: whatever the rest, codes of other prefixes differ
Decodes == \A r \in Ranks : LET c == EncodeHash(H(r)) IN
    IF c % 2 = 1 THEN c \div 2^FlagShift = pre ELSE c \div 2 = pre
\* the bytes of a code after any other one decode to it
RoundTrip == \A r \in Ranks : LET c == EncodeHash(H(r)) IN
    /\ Iter(Push(EmptyList, c)) = <<c>>
    /\ \A d \in {0, 1, c \div 2, c} : d <= c => Iter(Push(Push(EmptyList, d), c)) = <<d, c>>
=============================================================================

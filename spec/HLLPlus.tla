------------------------------ MODULE HLLPlus ------------------------------
(***************************************************************************)
(* L1: HyperLogLog++ shaped like src/hyperloglogplus.rs: pending set,      *)
(* compressed list, packed registers, the flush, the one-way switch of     *)
(* form and the four-way merge.                                            *)
(*                                                                         *)
(* A hash is a record [pre, r]: its PPbits highest bits and the rank       *)
(* (1 .. RestBits+1) of the bits behind them, all a sketch ever looks at.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Codec, Registers

CONSTANTS P,              \* precision
          PPbits,         \* 25 in the crate
          FlagShift,      \* 7 in the crate
          RestBits,       \* 39 in the crate
          Limit,          \* bytes the compressed list may take
          PendFactor      \* flush when |pending| * PendFactor > Limit; 100

M == 2^P
SpanL == 2^(PPbits - P)
Hash == [pre : 0..(2^PPbits - 1), r : 1..(RestBits + 1)]

RECURSIVE LZ(_, _)        \* leading zeros of x as a w-bit number
LZ(x, w) == IF w = 0 \/ x >= 2^(w - 1) THEN 0 ELSE 1 + LZ(x, w - 1)

----------------------------------------------------------------------------
\* Codes, as encode_hash, index and decode_hash have them.
EncodeHash(h) == IF h.pre % SpanL = 0 THEN h.pre * 2^FlagShift + 2 * h.r + 1
                 ELSE 2 * h.pre
IsFlagged(c) == c % 2 = 1
CodeIndex(c) == IF IsFlagged(c) THEN c \div (2^FlagShift * SpanL)
                ELSE (c \div 2) \div SpanL
CodeRank(c)  == IF IsFlagged(c) THEN ((c % 2^FlagShift) \div 2) + (PPbits - P)
                ELSE 1 + LZ((c \div 2) % SpanL, PPbits - P)

\* What the large form computes directly from a hash.
HashIndex(h) == h.pre \div SpanL
HashRank(h)  == LET dif == h.pre % SpanL IN
                IF dif = 0 THEN (PPbits - P) + h.r ELSE 1 + LZ(dif, PPbits - P)

----------------------------------------------------------------------------
NoRegs == [w |-> <<>>, count |-> 0, zeros |-> 0]
Fresh == [large |-> FALSE, pend |-> {}, list |-> EmptyList, regs |-> NoRegs]

ApplyCodes(regs, codes) ==       \* a sequence of codes
    FoldLeft(LAMBDA acc, c : SetGreater(acc, CodeIndex(c), CodeRank(c)), regs, codes)

\* sparse_to_normal: only the compressed list is carried over
ToLarge(s) == [large |-> TRUE, pend |-> {}, list |-> EmptyList,
               regs |-> ApplyCodes(WithCount(M), Iter(s.list))]

\* the two-way merge of merge_sparse, element by element
RECURSIVE Weave(_, _, _)
Weave(xs, ys, out) ==
    IF xs = <<>> /\ ys = <<>> THEN out
    ELSE IF xs = <<>> THEN Weave(xs, Tail(ys), Push(out, Head(ys)))
    ELSE IF ys = <<>> THEN Weave(Tail(xs), ys, Push(out, Head(xs)))
    ELSE IF Head(xs) = Head(ys) THEN Weave(Tail(xs), Tail(ys), Push(out, Head(xs)))
    ELSE IF Head(xs) > Head(ys) THEN Weave(xs, Tail(ys), Push(out, Head(ys)))
    ELSE Weave(Tail(xs), ys, Push(out, Head(xs)))

Flush(s) ==
    LET t == [s EXCEPT !.list = Weave(SetToSortSeq(s.pend, <), Iter(s.list), EmptyList),
                       !.pend = {}]
    IN  IF Bytes(t.list) > Limit THEN ToLarge(t) ELSE t

MayFlush(s) == IF Cardinality(s.pend) * PendFactor > Limit THEN Flush(s) ELSE s

DoInsert(s, h) ==
    IF s.large THEN [s EXCEPT !.regs = SetGreater(@, HashIndex(h), HashRank(h))]
    ELSE MayFlush([s EXCEPT !.pend = @ \cup {EncodeHash(h)}])

DoCount(s) == IF s.large THEN s ELSE Flush(s)

MergeRegs(r, q) == FoldLeftDomain(LAMBDA acc, i : SetGreater(acc, i - 1, Get(q, i - 1)), r,
                                  [i \in 1..q.count |-> i])

DoMerge(s, o) ==
    IF ~o.large
    THEN IF ~s.large
         THEN MayFlush([s EXCEPT !.pend = @ \cup o.pend \cup ToSet(Iter(o.list))])
         ELSE [s EXCEPT !.regs = ApplyCodes(ApplyCodes(@, SetToSeq(o.pend)), Iter(o.list))]
    ELSE LET t == IF s.large THEN s
                  ELSE LET f == Flush(s) IN IF f.large THEN f ELSE ToLarge(f)
         IN  [t EXCEPT !.regs = MergeRegs(@, o.regs)]

\* What count() looks at, in a sketch it has just flushed.
Seen(s) == IF s.large THEN [form |-> "large", regs |-> Values(s.regs)]
           ELSE [form |-> "small", n |-> s.list.count]

----------------------------------------------------------------------------
\* What the set of hashes says should be there: the function of L0.
Codes(H) == {EncodeHash(h) : h \in H}
EncLen(C) == Bytes(FoldLeft(Push, EmptyList, SetToSortSeq(C, <)))
BestRank(H, b) == Max({0} \cup {HashRank(h) : h \in {x \in H : HashIndex(x) = b}})
RegsOf(H) == [b \in 0..(M - 1) |-> BestRank(H, b)]
Answer(H) == IF EncLen(Codes(H)) > Limit THEN [form |-> "large", regs |-> RegsOf(H)]
             ELSE [form |-> "small", n |-> Cardinality(Codes(H))]
=============================================================================

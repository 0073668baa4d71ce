------------------------------- MODULE MCPlus -------------------------------
(***************************************************************************)
(* Exhaustive check of HLLPlus against SketchSet for small constants:      *)
(* every history of insertions, estimates, merges, copies and resets of    *)
(* the sketches in Keys over a set of hashes chosen at the start.          *)
(***************************************************************************)
EXTENDS HLLPlus

CONSTANTS Keys, HashChoices

VARIABLES sk,         \* L1 sketches
          ghost,      \* L0 sketches: [kind, p, seen]
          reply, hs   \* last answer; the hashes of this behaviour

vars == <<sk, ghost, reply, hs>>

\* different rests of one prefix, neighbours, flagged and unflagged prefixes
Pool == [pre : 0..(2^PPbits - 1), r : {1, RestBits + 1}]

Init ==
    /\ hs \in HashChoices
    /\ sk = [k \in Keys |-> Fresh]
    /\ ghost = [k \in Keys |-> [kind |-> "plus", p |-> P, seen |-> {}]]
    /\ reply = [r |-> "none"]

Insert(k, h) ==
    /\ sk' = [sk EXCEPT ![k] = DoInsert(@, h)]
    /\ ghost' = [ghost EXCEPT ![k].seen = @ \cup {h}]
    /\ reply' = [r |-> "ok"]

Count(k) ==
    /\ sk' = [sk EXCEPT ![k] = DoCount(@)]
    /\ reply' = [r |-> "ok", e |-> Seen(DoCount(sk[k]))]
    /\ UNCHANGED ghost

Merge(a, b) ==
    /\ sk' = [sk EXCEPT ![a] = DoMerge(@, sk[b])]
    /\ ghost' = [ghost EXCEPT ![a].seen = @ \cup ghost[b].seen]
    /\ reply' = [r |-> "ok"]

Copy(a, b) ==
    /\ sk' = [sk EXCEPT ![b] = sk[a]]
    /\ ghost' = [ghost EXCEPT ![b] = ghost[a]]
    /\ reply' = [r |-> "ok"]

New(k) ==
    /\ sk' = [sk EXCEPT ![k] = Fresh]
    /\ ghost' = [ghost EXCEPT ![k].seen = {}]
    /\ reply' = [r |-> "ok"]

Next ==
    /\ UNCHANGED hs
    /\ \E k \in Keys :
          \/ \E h \in hs : Insert(k, h)
          \/ Count(k)
          \/ New(k)
          \/ \E b \in Keys \ {k} : Merge(k, b) \/ Copy(k, b)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Refinement: L1 is L0 with the ghost as its sketches.
L0PrecOK(kind, p) == p = P
L0EstOK(kind, p, seen, e) == e = Answer(seen)
L0 == INSTANCE SketchSet WITH PrecOK <- L0PrecOK, EstOK <- L0EstOK, sk <- ghost

L0Next ==
    \E k \in Keys :
        \/ L0!New(k, "plus", P)
        \/ \E h \in hs : L0!Insert(k, {h})
        \/ reply'.r = "ok" /\ "e" \in DOMAIN reply' /\ L0!Count(k, reply'.e)
        \/ \E b \in Keys \ {k} : L0!Merge(k, b) \/ L0!Copy(k, b)

Refines == [][L0Next]_<<ghost, reply>>

----------------------------------------------------------------------------
\* L1 is also the design that HLLAbsProof proves correct for all parameters:
\* the list as a set of codes, the registers as maxima over codes.
RegsOfCodes(C) == [b \in 0..(M - 1) |-> Max({0} \cup {CodeRank(c) : c \in {x \in C : CodeIndex(x) = b}})]
JoinRegs(r, q) == [b \in 0..(M - 1) |-> Max({r[b], q[b]})]
AsAbs(s) == [large |-> s.large, pend |-> s.pend, list |-> ToSet(Iter(s.list)),
             regs |-> IF s.large THEN Values(s.regs) ELSE RegsOfCodes({})]
absSk   == [k \in Keys |-> AsAbs(sk[k])]
absSeen == [k \in Keys |-> Codes(ghost[k].seen)]
Abs == INSTANCE HLLAbs WITH Key <- Keys, Code <- Codes(Pool), Len <- EncLen, Regs <- RegsOfCodes, Join <- JoinRegs,
                            sk <- absSk, seen <- absSeen
AbsNext ==
    \E k \in Keys :
        \/ absSk' = Abs!Put(absSk, k, Abs!Fresh) /\ absSeen' = Abs!Put(absSeen, k, {})
        \/ \E c \in Codes(hs), now \in BOOLEAN :
              absSk' = Abs!Put(absSk, k, Abs!AfterInsert(absSk[k], c, now))
              /\ absSeen' = Abs!Put(absSeen, k, absSeen[k] \cup {c})
        \/ absSk' = Abs!Put(absSk, k, Abs!AfterCount(absSk[k])) /\ UNCHANGED absSeen
        \/ \E b \in Keys \ {k}, now \in BOOLEAN :
              absSk' = Abs!Put(absSk, k, Abs!AfterMerge(absSk[k], absSk[b], now))
              /\ absSeen' = Abs!Put(absSeen, k, absSeen[k] \cup absSeen[b])
        \/ \E b \in Keys \ {k} :
              absSk' = Abs!Put(absSk, b, absSk[k]) /\ absSeen' = Abs!Put(absSeen, b, absSeen[k])
RefinesAbs == [][AbsNext]_<<absSk, absSeen>>

\* what HLLAbsProof assumes of the list
LenOK == \A C \in SUBSET Codes(hs) : \A c \in Codes(hs) : EncLen(C) <= EncLen(C \cup {c})
RegsJoinOK == \A C \in SUBSET Codes(hs) : \A D \in SUBSET Codes(hs) :
                  JoinRegs(RegsOfCodes(C), RegsOfCodes(D)) = RegsOfCodes(C \cup D)

----------------------------------------------------------------------------
\* The state of every sketch is determined by what it has seen, up to what
\* is still pending.
Canonical ==
    \A k \in Keys :
        LET s == sk[k] IN
        IF s.large
        THEN /\ Values(s.regs) = RegsOf(ghost[k].seen)
             /\ EncLen(Codes(ghost[k].seen)) > Limit
        ELSE s.pend \cup ToSet(Iter(s.list)) = Codes(ghost[k].seen)

\* Register bookkeeping and the unused bits of the words.
RegistersOK ==
    \A k \in Keys :
        LET r == sk[k].regs IN
        sk[k].large =>
          /\ r.zeros = Cardinality({i \in 0..(M - 1) : Get(r, i) = 0})
          /\ \A j \in 1..Len(r.w) : r.w[j] < 2^(RegBits * PerWord)
          /\ \A i \in r.count..(Len(r.w) * PerWord - 1) : Get(r, i) = 0

\* The list is strictly increasing, decodes to what went in, and was encoded
\* canonically; buffers are bounded.
ListOK ==
    \A k \in Keys :
        LET s == sk[k]
            it == Iter(s.list)
        IN  /\ \A i \in 1..(Len(it) - 1) : it[i] < it[i + 1]
            /\ s.list.count = Len(it)
            /\ s.list.last = (IF it = <<>> THEN 0 ELSE it[Len(it)])
            /\ FoldLeft(Push, EmptyList, it) = s.list
            /\ Bytes(s.list) <= Limit
            /\ Cardinality(s.pend) * PendFactor <= Limit
            /\ s.large => s.pend = {} /\ s.list = EmptyList

\* Switching is one-way and registers never go down, except when a sketch is
\* replaced.
Grows(k) ==
    LET s == sk[k]
        t == sk'[k]
    IN  s.large => t.large /\ \A i \in 0..(M - 1) : Get(t.regs, i) >= Get(s.regs, i)
Monotone ==
    [][\A k \in Keys : ghost[k].seen \subseteq ghost'[k].seen /\ sk'[k] # Fresh
          /\ ~(\E b \in Keys \ {k} : Copy(b, k)) => Grows(k)]_vars

\* Any estimate now would be L0's.
AnswersOK == \A k \in Keys : Seen(DoCount(sk[k])) = Answer(ghost[k].seen)

\* Merging commutes, associates and is idempotent, as far as answers go.
MergeLaws ==
    \A a, b \in Keys :
        /\ Seen(DoCount(DoMerge(sk[a], sk[b]))) = Seen(DoCount(DoMerge(sk[b], sk[a])))
        /\ Seen(DoCount(DoMerge(DoMerge(sk[a], sk[b]), sk[b]))) = Seen(DoCount(DoMerge(sk[a], sk[b])))
        /\ Seen(DoCount(DoMerge(sk[a], Fresh))) = Seen(DoCount(sk[a]))
        /\ Seen(DoCount(DoMerge(Fresh, sk[a]))) = Seen(DoCount(sk[a]))

----------------------------------------------------------------------------
\* Choices of hashes for the configurations.
View == <<sk, ghost, hs>>      \* the last answer is no part of the future
AllOfSize(n) == kSubset(n, Pool)
=============================================================================

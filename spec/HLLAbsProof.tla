---------------------------- MODULE HLLAbsProof ----------------------------
(***************************************************************************)
(* Proofs about HLLAbs, checked by TLAPS.                                  *)
(***************************************************************************)
EXTENDS HLLAbs, TLAPS

\* the list of more codes is not shorter (CodesSym!Subadditive, RunsCheck)
ASSUME LenNat  == Limit \in Nat /\ \A C \in SUBSET Code : Len(C) \in Nat
ASSUME LenMono == \A C, D \in SUBSET Code : C \subseteq D => Len(C) <= Len(D)
ASSUME LenNone == Len({}) <= Limit
\* registers are maxima (RegsProof)
ASSUME RegsJoin == \A C, D \in SUBSET Code : Join(Regs(C), Regs(D)) = Regs(C \cup D)

LEMMA FlushOK ==
    ASSUME NEW s, NEW C \in SUBSET Code, SketchOK(s, C), s.large = FALSE
    PROVE  /\ SketchOK(Flush(s), C)
           /\ Shown(Flush(s)) = Answer(C)
  <1>1. s.list \cup s.pend = C /\ s.regs = Regs({})
    BY DEF SketchOK
  <1>2. CASE Len(C) > Limit
    <2>1. Flush(s) = Large(Regs(C))
      BY <1>1, <1>2 DEF Flush
    <2> QED BY <2>1, <1>2 DEF SketchOK, Large, Shown, Answer
  <1>3. CASE ~(Len(C) > Limit)
    <2>1. Flush(s) = Small({}, C)
      BY <1>1, <1>3 DEF Flush
    <2>2. Len(C) <= Limit
      BY <1>3, LenNat
    <2> QED BY <2>1, <2>2, <1>3 DEF SketchOK, Small, Shown, Answer
  <1> QED BY <1>2, <1>3

LEMMA FreshOK == SketchOK(Fresh, {})
  BY LenNone DEF SketchOK, Fresh, Small

LEMMA InsertOK ==
    ASSUME NEW s, NEW C \in SUBSET Code, NEW c \in Code, NEW now \in BOOLEAN, SketchOK(s, C)
    PROVE  SketchOK(AfterInsert(s, c, now), C \cup {c})
  <1>0. C \cup {c} \in SUBSET Code /\ {c} \in SUBSET Code
    OBVIOUS
  <1>1. CASE s.large = TRUE
    <2>1. s.regs = Regs(C) /\ Len(C) > Limit
      BY <1>1 DEF SketchOK
    <2>2. AfterInsert(s, c, now) = Large(Regs(C \cup {c}))
      BY <1>0, <1>1, <2>1, RegsJoin DEF AfterInsert
    <2>3. Len(C \cup {c}) > Limit
      <3>1. Len(C) <= Len(C \cup {c})
        BY <1>0, LenMono
      <3> QED BY <3>1, <2>1, <1>0, LenNat
    <2> QED BY <2>2, <2>3 DEF SketchOK, Large
  <1>2. CASE s.large = FALSE
    <2> DEFINE t == Small(s.pend \cup {c}, s.list)
    <2>1. SketchOK(t, C \cup {c}) /\ t.large = FALSE
      BY <1>2 DEF SketchOK, Small
    <2>2. AfterInsert(s, c, now) = MayFlush(t, now)
      BY <1>2 DEF AfterInsert
    <2>3. SketchOK(Flush(t), C \cup {c})
      BY <1>0, <2>1, FlushOK
    <2> QED BY <2>1, <2>2, <2>3 DEF MayFlush
  <1> QED BY <1>1, <1>2 DEF SketchOK

LEMMA CountOK ==
    ASSUME NEW s, NEW C \in SUBSET Code, SketchOK(s, C)
    PROVE  SketchOK(AfterCount(s), C) /\ Shown(AfterCount(s)) = Answer(C)
  <1>1. CASE s.large = TRUE
    BY <1>1 DEF SketchOK, AfterCount, Shown, Answer
  <1>2. CASE s.large = FALSE
    BY <1>2, FlushOK DEF AfterCount
  <1> QED BY <1>1, <1>2 DEF SketchOK

LEMMA MergeOK ==
    ASSUME NEW s, NEW o, NEW C \in SUBSET Code, NEW D \in SUBSET Code, NEW now \in BOOLEAN,
           SketchOK(s, C), SketchOK(o, D)
    PROVE  SketchOK(AfterMerge(s, o, now), C \cup D)
  <1>0. C \cup D \in SUBSET Code
    OBVIOUS
  <1>1. Len(C) <= Len(C \cup D) /\ Len(D) <= Len(C \cup D)
    BY <1>0, LenMono
  <1>a. Len(C) \in Nat /\ Len(D) \in Nat /\ Len(C \cup D) \in Nat /\ Limit \in Nat
    BY <1>0, LenNat
  <1>2. CASE s.large = TRUE /\ o.large = TRUE
    <2>1. AfterMerge(s, o, now) = Large(Regs(C \cup D))
      BY <1>2, RegsJoin DEF AfterMerge, SketchOK
    <2>2. Len(C) > Limit
      BY <1>2 DEF SketchOK
    <2> QED BY <2>1, <2>2, <1>1, <1>a DEF SketchOK, Large
  <1>3. CASE s.large = TRUE /\ o.large = FALSE
    <2>1. AfterMerge(s, o, now) = Large(Regs(C \cup D))
      BY <1>3, RegsJoin DEF AfterMerge, SketchOK
    <2>2. Len(C) > Limit
      BY <1>3 DEF SketchOK
    <2> QED BY <2>1, <2>2, <1>1, <1>a DEF SketchOK, Large
  <1>4. CASE s.large = FALSE /\ o.large = TRUE
    <2> DEFINE f == Flush(s)
    <2>1. SketchOK(f, C) /\ Shown(f) = Answer(C)
      BY <1>4, FlushOK
    <2>2. (IF f.large THEN f.regs ELSE Regs(f.list)) = Regs(C)
      BY <2>1, <1>4 DEF SketchOK, Flush, Large, Small
    <2>3. o.regs = Regs(D) /\ Len(D) > Limit
      BY <1>4 DEF SketchOK
    <2>4. AfterMerge(s, o, now) = Large(Join(Regs(C), Regs(D)))
      BY <1>4, <2>2, <2>3 DEF AfterMerge
    <2>5. AfterMerge(s, o, now) = Large(Regs(C \cup D))
      BY <2>4, RegsJoin
    <2> QED BY <2>5, <2>3, <1>1, <1>a DEF SketchOK, Large
  <1>5. CASE s.large = FALSE /\ o.large = FALSE
    <2> DEFINE t == Small(s.pend \cup o.pend \cup o.list, s.list)
    <2>1. SketchOK(t, C \cup D) /\ t.large = FALSE
      BY <1>5 DEF SketchOK, Small
    <2>2. AfterMerge(s, o, now) = MayFlush(t, now)
      BY <1>5 DEF AfterMerge
    <2>3. SketchOK(Flush(t), C \cup D)
      BY <1>0, <2>1, FlushOK
    <2> QED BY <2>1, <2>2, <2>3 DEF MayFlush
  <1> QED BY <1>2, <1>3, <1>4, <1>5 DEF SketchOK

----------------------------------------------------------------------------
\* Types kept apart: sketches are functions, whatever they map to.
OK == /\ seen \in [Key -> SUBSET Code]
      /\ sk = [k \in Key |-> sk[k]]
      /\ \A k \in Key : SketchOK(sk[k], seen[k])

LEMMA InitOK == Init => OK
  BY FreshOK DEF Init, OK

LEMMA NextOK == OK /\ [Next]_vars => OK'
  <1> SUFFICES ASSUME OK, [Next]_vars PROVE OK'
    OBVIOUS
  <1>1. CASE UNCHANGED vars
    BY <1>1 DEF OK, vars
  <1>2. ASSUME NEW k \in Key, New(k) PROVE OK'
    BY <1>2, FreshOK DEF OK, New, Put
  <1>3. ASSUME NEW k \in Key, NEW c \in Code, NEW now \in BOOLEAN, Insert(k, c, now) PROVE OK'
    <2>1. SketchOK(AfterInsert(sk[k], c, now), seen[k] \cup {c})
      BY InsertOK DEF OK
    <2> QED BY <1>3, <2>1 DEF OK, Insert, Put
  <1>4. ASSUME NEW k \in Key, Count(k) PROVE OK'
    <2>1. SketchOK(AfterCount(sk[k]), seen[k])
      BY CountOK DEF OK
    <2> QED BY <1>4, <2>1 DEF OK, Count, Put
  <1>5. ASSUME NEW a \in Key, NEW b \in Key, NEW now \in BOOLEAN, Merge(a, b, now) PROVE OK'
    <2>1. SketchOK(AfterMerge(sk[a], sk[b], now), seen[a] \cup seen[b])
      BY MergeOK DEF OK
    <2> QED BY <1>5, <2>1 DEF OK, Merge, Put
  <1>6. ASSUME NEW a \in Key, NEW b \in Key, Copy(a, b) PROVE OK'
    BY <1>6 DEF OK, Copy, Put
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next

LEMMA StepOK == OK /\ [Next]_vars => [L0Next]_<<seen, reply>>
  <1> SUFFICES ASSUME OK, [Next]_vars PROVE [L0Next]_<<seen, reply>>
    OBVIOUS
  <1>1. CASE UNCHANGED vars
    BY <1>1 DEF vars
  <1>2. ASSUME NEW k \in Key, New(k) PROVE L0Next
    BY <1>2 DEF New, L0Next
  <1>3. ASSUME NEW k \in Key, NEW c \in Code, NEW now \in BOOLEAN, Insert(k, c, now) PROVE L0Next
    BY <1>3 DEF Insert, L0Next
  <1>4. ASSUME NEW k \in Key, Count(k) PROVE L0Next
    <2>1. Shown(AfterCount(sk[k])) = Answer(seen[k])
      BY CountOK DEF OK
    <2> QED BY <1>4, <2>1 DEF Count, L0Next
  <1>5. ASSUME NEW a \in Key, NEW b \in Key, NEW now \in BOOLEAN, Merge(a, b, now) PROVE L0Next
    BY <1>5 DEF Merge, L0Next
  <1>6. ASSUME NEW a \in Key, NEW b \in Key, Copy(a, b) PROVE L0Next
    BY <1>6 DEF Copy, L0Next
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next

THEOREM Correct == Spec => L0Spec
  <1>1. Spec => []OK
    BY InitOK, NextOK, PTL DEF Spec
  <1> QED BY <1>1, StepOK, PTL DEF Spec, L0Spec
=============================================================================

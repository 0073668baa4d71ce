------------------------------- MODULE HLLAbs -------------------------------
(***************************************************************************)
(* HyperLogLog++ with its two forms, for any encoding and any registers:   *)
(* what the design rests on, and nothing else.  HLLAbsProof proves that    *)
(* its answers are a function of what a sketch has seen, for any number of *)
(* sketches, elements and steps; MCPlus checks that HLLPlus refines it.    *)
(*                                                                         *)
(* Pending codes may be flushed, or not, after any operation.              *)
(***************************************************************************)
EXTENDS Naturals

CONSTANTS Key, Code,
          Len(_),        \* bytes that the list of a set of codes takes
          Limit,
          Regs(_),       \* registers after a set of codes
          Join(_, _)     \* of registers, the greater of each

VARIABLES sk,            \* what the algorithm keeps
          seen,          \* what each sketch has seen
          reply          \* the last answer

vars == <<sk, seen, reply>>

Small(pend, list) == [large |-> FALSE, pend |-> pend, list |-> list, regs |-> Regs({})]
Large(regs) == [large |-> TRUE, pend |-> {}, list |-> {}, regs |-> regs]
Fresh == Small({}, {})

Flush(s) == IF Len(s.list \cup s.pend) > Limit THEN Large(Regs(s.list \cup s.pend))
            ELSE Small({}, s.list \cup s.pend)

\* whether a small sketch is flushed now
MayFlush(s, now) == IF now THEN Flush(s) ELSE s

AfterInsert(s, c, now) ==
    IF s.large THEN Large(Join(s.regs, Regs({c})))
    ELSE MayFlush(Small(s.pend \cup {c}, s.list), now)

AfterCount(s) == IF s.large THEN s ELSE Flush(s)

AfterMerge(s, o, now) ==
    IF o.large
    THEN IF s.large THEN Large(Join(s.regs, o.regs))
         ELSE LET f == Flush(s) IN
              Large(Join(IF f.large THEN f.regs ELSE Regs(f.list), o.regs))
    ELSE IF s.large THEN Large(Join(s.regs, Regs(o.list \cup o.pend)))
         ELSE MayFlush(Small(s.pend \cup o.pend \cup o.list, s.list), now)

\* What an estimate is computed from.
Shown(s) == IF s.large THEN [form |-> "large", of |-> s.regs]
            ELSE [form |-> "small", of |-> s.list]

\* What it has to be.
Answer(C) == IF Len(C) > Limit THEN [form |-> "large", of |-> Regs(C)]
             ELSE [form |-> "small", of |-> C]

Put(f, k, v) == [f EXCEPT ![k] = v]

Init == /\ sk = [k \in Key |-> Fresh]
        /\ seen = [k \in Key |-> {}]
        /\ reply = [form |-> "none", of |-> {}]

New(k) == sk' = Put(sk, k, Fresh) /\ seen' = Put(seen, k, {}) /\ UNCHANGED reply

Insert(k, c, now) ==
    /\ sk' = Put(sk, k, AfterInsert(sk[k], c, now))
    /\ seen' = Put(seen, k, seen[k] \cup {c})
    /\ UNCHANGED reply

Count(k) ==
    /\ sk' = Put(sk, k, AfterCount(sk[k]))
    /\ reply' = Shown(AfterCount(sk[k]))
    /\ UNCHANGED seen

Merge(a, b, now) ==
    /\ sk' = Put(sk, a, AfterMerge(sk[a], sk[b], now))
    /\ seen' = Put(seen, a, seen[a] \cup seen[b])
    /\ UNCHANGED reply

Copy(a, b) == sk' = Put(sk, b, sk[a]) /\ seen' = Put(seen, b, seen[a]) /\ UNCHANGED reply

Next ==
    \E k \in Key :
        \/ New(k)
        \/ \E c \in Code, now \in BOOLEAN : Insert(k, c, now)
        \/ Count(k)
        \/ \E b \in Key, now \in BOOLEAN : Merge(k, b, now)
        \/ \E b \in Key : Copy(k, b)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* The state of a sketch, up to what is still pending, is determined by what
\* it has seen.
SketchOK(s, C) ==
    \/ /\ s.large = TRUE /\ s.pend = {} /\ s.list = {}
       /\ s.regs = Regs(C)
       /\ Len(C) > Limit
    \/ /\ s.large = FALSE
       /\ s.regs = Regs({})
       /\ s.list \cup s.pend = C
       /\ Len(s.list) <= Limit

Inv == /\ seen \in [Key -> SUBSET Code]
       /\ sk \in [Key -> [large : BOOLEAN, pend : SUBSET Code, list : SUBSET Code, regs : {Regs(C) : C \in SUBSET Code}]]
       /\ \A k \in Key : SketchOK(sk[k], seen[k])

\* L0: an estimate is a function of the set.
CountIsFunction == \A k \in Key : Count(k) => reply' = Answer(seen[k])
L0Next ==
    \E k \in Key :
        \/ seen' = Put(seen, k, {}) /\ UNCHANGED reply
        \/ \E c \in Code : seen' = Put(seen, k, seen[k] \cup {c}) /\ UNCHANGED reply
        \/ UNCHANGED seen /\ reply' = Answer(seen[k])
        \/ \E b \in Key : seen' = Put(seen, k, seen[k] \cup seen[b]) /\ UNCHANGED reply
        \/ \E b \in Key : seen' = Put(seen, b, seen[k]) /\ UNCHANGED reply
L0Spec == Init /\ [][L0Next]_<<seen, reply>>
=============================================================================

----------------------------- MODULE RegsProof -----------------------------
(***************************************************************************)
(* Registers are maxima: they are determined by the set of elements seen,  *)
(* updating one by one builds them, and joining them is uniting the sets.  *)
(* For any number of buckets, elements and ranks.                          *)
(***************************************************************************)
EXTENDS Naturals, TLAPS

CONSTANTS Bucket, Elem, BucketOf(_), RankOf(_)

ASSUME Elements == \A c \in Elem : BucketOf(c) \in Bucket /\ RankOf(c) \in Nat

Regs == [Bucket -> Nat]
Zero == [b \in Bucket |-> 0]
Update(r, c) == IF RankOf(c) > r[BucketOf(c)] THEN [r EXCEPT ![BucketOf(c)] = RankOf(c)] ELSE r
Join(r, q) == [b \in Bucket |-> IF q[b] > r[b] THEN q[b] ELSE r[b]]

\* r are the registers after the elements C, in whatever order
IsRegs(r, C) ==
    /\ r \in Regs
    /\ \A b \in Bucket :
          /\ \A c \in C : BucketOf(c) = b => RankOf(c) <= r[b]
          /\ r[b] = 0 \/ \E c \in C : BucketOf(c) = b /\ RankOf(c) = r[b]

THEOREM Nothing == IsRegs(Zero, {})
  BY DEF IsRegs, Zero, Regs

THEOREM Unique ==
    ASSUME NEW C \in SUBSET Elem, NEW r, NEW q, IsRegs(r, C), IsRegs(q, C)
    PROVE  r = q
  <1>1. ASSUME NEW b \in Bucket PROVE r[b] = q[b]
    <2>1. r[b] \in Nat /\ q[b] \in Nat
      BY DEF IsRegs, Regs
    <2>2. r[b] <= q[b]
      BY <2>1 DEF IsRegs
    <2>3. q[b] <= r[b]
      BY <2>1 DEF IsRegs
    <2> QED BY <2>1, <2>2, <2>3
  <1> QED BY <1>1 DEF IsRegs, Regs

THEOREM OneByOne ==
    ASSUME NEW C \in SUBSET Elem, NEW r, NEW c \in Elem, IsRegs(r, C)
    PROVE  IsRegs(Update(r, c), C \cup {c})
  <1> DEFINE n == RankOf(c)
             a == BucketOf(c)
             u == Update(r, c)
  <1>0. n \in Nat /\ a \in Bucket /\ r \in Regs
    BY Elements DEF IsRegs
  <1>1. u \in Regs
    BY <1>0 DEF Update, Regs
  <1>2. ASSUME NEW b \in Bucket
        PROVE  /\ \A d \in C \cup {c} : BucketOf(d) = b => RankOf(d) <= u[b]
               /\ u[b] = 0 \/ \E d \in C \cup {c} : BucketOf(d) = b /\ RankOf(d) = u[b]
    <2>0. r[b] \in Nat /\ r[a] \in Nat
      BY <1>0 DEF Regs
    <2>1. CASE n > r[a] /\ b = a
      <3>1. u[b] = n
        BY <2>1, <1>0 DEF Update, Regs
      <3>2. \A d \in C : BucketOf(d) = b => RankOf(d) <= n
        <4> TAKE d \in C
        <4> HAVE BucketOf(d) = b
        <4>1. RankOf(d) <= r[b] /\ RankOf(d) \in Nat
          BY Elements DEF IsRegs
        <4> QED BY <4>1, <2>0, <2>1, <1>0
      <3> QED BY <3>1, <3>2, <2>1, <1>0
    <2>2. CASE ~(n > r[a] /\ b = a)
      <3>1. u[b] = r[b]
        BY <2>2, <1>0 DEF Update, Regs
      <3>2. BucketOf(c) = b => RankOf(c) <= r[b]
        BY <2>2, <2>0, <1>0
      <3> QED BY <3>1, <3>2 DEF IsRegs
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>1, <1>2 DEF IsRegs

THEOREM Joining ==
    ASSUME NEW C \in SUBSET Elem, NEW D \in SUBSET Elem, NEW r, NEW q, IsRegs(r, C), IsRegs(q, D)
    PROVE  IsRegs(Join(r, q), C \cup D)
  <1> DEFINE u == Join(r, q)
  <1>0. r \in Regs /\ q \in Regs
    BY DEF IsRegs
  <1>1. u \in Regs
    BY <1>0 DEF Join, Regs
  <1>2. ASSUME NEW b \in Bucket
        PROVE  /\ \A d \in C \cup D : BucketOf(d) = b => RankOf(d) <= u[b]
               /\ u[b] = 0 \/ \E d \in C \cup D : BucketOf(d) = b /\ RankOf(d) = u[b]
    <2>0. r[b] \in Nat /\ q[b] \in Nat /\ u[b] = IF q[b] > r[b] THEN q[b] ELSE r[b]
      BY <1>0 DEF Regs, Join
    <2>1. \A d \in C \cup D : BucketOf(d) = b => RankOf(d) <= u[b]
      <3> TAKE d \in C \cup D
      <3> HAVE BucketOf(d) = b
      <3>0. RankOf(d) \in Nat
        BY Elements
      <3>1. CASE d \in C
        <4>1. RankOf(d) <= r[b]
          BY <3>1 DEF IsRegs
        <4> QED BY <4>1, <3>0, <2>0
      <3>2. CASE d \in D
        <4>1. RankOf(d) <= q[b]
          BY <3>2 DEF IsRegs
        <4> QED BY <4>1, <3>0, <2>0
      <3> QED BY <3>1, <3>2
    <2>2. u[b] = 0 \/ \E d \in C \cup D : BucketOf(d) = b /\ RankOf(d) = u[b]
      BY <2>0 DEF IsRegs
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>1, <1>2 DEF IsRegs

\* what HLLAbsProof assumes, and the laws of merging
THEOREM JoinIsUnion ==
    ASSUME NEW C \in SUBSET Elem, NEW D \in SUBSET Elem, NEW r, NEW q, NEW u,
           IsRegs(r, C), IsRegs(q, D), IsRegs(u, C \cup D)
    PROVE  Join(r, q) = u
  <1>1. C \cup D \in SUBSET Elem
    OBVIOUS
  <1> QED BY <1>1, Joining, Unique

THEOREM Laws ==
    ASSUME NEW r \in Regs, NEW q \in Regs, NEW t \in Regs
    PROVE  /\ Join(r, q) = Join(q, r)
           /\ Join(Join(r, q), t) = Join(r, Join(q, t))
           /\ Join(r, r) = r
           /\ Join(r, Zero) = r
  BY DEF Join, Regs, Zero

\* registers never go down
THEOREM Grow ==
    ASSUME NEW r \in Regs, NEW q \in Regs, NEW c \in Elem
    PROVE  \A b \in Bucket : r[b] <= Update(r, c)[b] /\ r[b] <= Join(r, q)[b]
  BY Elements DEF Join, Update, Regs
=============================================================================

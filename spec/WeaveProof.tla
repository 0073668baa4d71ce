----------------------------- MODULE WeaveProof -----------------------------
(***************************************************************************)
(* The loop that merges the unprocessed entries, sorted, into the list     *)
(* (Weave of HLLPlus, merge_sparse of the crate), step by step: it reads   *)
(* the old list by adding up its differences and writes the differences of *)
(* the new one.  For lists of any length and any numbers: the differences  *)
(* written are never negative, adding them up gives a strictly increasing  *)
(* list, and that list holds the entries of both and nothing else.         *)
(*                                                                         *)
(* X are the unprocessed entries in order, Y the entries of the list and D *)
(* the differences it is kept as.                                          *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANTS N, X, K, Y, D

Increasing(n, s) == \A a, b \in 1..n : a < b => s[a] < s[b]
\* the differences d add up to the entries s
Decodes(n, d, s) == \A k \in 1..n : s[k] = d[k] + (IF k = 1 THEN 0 ELSE s[k - 1])

ASSUME Given ==
    /\ N \in Nat /\ X \in [1..N -> Nat] /\ Increasing(N, X)
    /\ K \in Nat /\ Y \in [1..K -> Nat] /\ Increasing(K, Y)
    /\ D \in [1..K -> Nat] /\ Decodes(K, D, Y)

VARIABLES i, j,         \* next of X, next of D
          head,         \* sum of the differences up to the next, while there is one
          n, out, dif,  \* the entries of the new list and their differences
          last          \* the entry written last
vars == <<i, j, head, n, out, dif, last>>

Init == /\ i = 1 /\ j = 1
        /\ head = IF K = 0 THEN 0 ELSE D[1]
        /\ n = 0 /\ last = 0
        /\ out = [k \in 1..0 |-> 0] /\ dif = [k \in 1..0 |-> 0]

Write(v) ==
    /\ n' = n + 1
    /\ out' = [k \in 1..(n + 1) |-> IF k = n + 1 THEN v ELSE out[k]]
    /\ dif' = [k \in 1..(n + 1) |-> IF k = n + 1 THEN v - last ELSE dif[k]]
    /\ last' = v

NextX == i' = i + 1
NextY == j' = j + 1 /\ head' = IF j < K THEN head + D[j + 1] ELSE head

OnlyY == i > N /\ j <= K /\ Write(head) /\ NextY /\ UNCHANGED i
OnlyX == i <= N /\ j > K /\ Write(X[i]) /\ NextX /\ UNCHANGED <<j, head>>
Equal == i <= N /\ j <= K /\ X[i] = head /\ Write(head) /\ NextX /\ NextY
Later == i <= N /\ j <= K /\ X[i] > head /\ Write(head) /\ NextY /\ UNCHANGED i
Sooner == i <= N /\ j <= K /\ X[i] < head /\ Write(X[i]) /\ NextX /\ UNCHANGED <<j, head>>

Next == OnlyY \/ OnlyX \/ Equal \/ Later \/ Sooner
Spec == Init /\ [][Next]_vars

TypeOK == /\ i \in 1..(N + 1) /\ j \in 1..(K + 1) /\ n \in Nat /\ last \in Nat
          /\ head \in Nat /\ (j <= K => head = Y[j])
          /\ out \in [1..n -> Nat] /\ dif \in [1..n -> Nat]
          /\ last = IF n = 0 THEN 0 ELSE out[n]
\* everything written comes before everything that is left
Before == \A k \in 1..n : /\ i <= N => out[k] < X[i]
                          /\ j <= K => out[k] < Y[j]
\* what has been read has been written, and nothing else
Kept == /\ \A a \in 1..(i - 1) : \E k \in 1..n : out[k] = X[a]
        /\ \A b \in 1..(j - 1) : \E k \in 1..n : out[k] = Y[b]
Known == \A k \in 1..n : \/ \E a \in 1..(i - 1) : out[k] = X[a]
                         \/ \E b \in 1..(j - 1) : out[k] = Y[b]

Inv == TypeOK /\ Before /\ Kept /\ Known /\ Increasing(n, out) /\ Decodes(n, dif, out)

Done == i = N + 1 /\ j = K + 1

LEMMA Start == Init => Inv
  BY Given, Z3 DEF Init, Inv, TypeOK, Before, Kept, Known, Increasing, Decodes

\* writing a number beyond all written so far
LEMMA Writing ==
    ASSUME TypeOK, Increasing(n, out), Decodes(n, dif, out),
           NEW v \in Nat, \A k \in 1..n : out[k] < v, Write(v)
    PROVE  /\ n' \in Nat /\ last' \in Nat
           /\ out' \in [1..n' -> Nat] /\ dif' \in [1..n' -> Nat]
           /\ last' = out'[n'] /\ n' # 0
           /\ Increasing(n', out') /\ Decodes(n', dif', out')
           /\ \A k \in 1..n : out'[k] = out[k]
           /\ out'[n'] = v
           /\ n' = n + 1
  <1>1. n' = n + 1 /\ n \in Nat
    BY DEF Write, TypeOK
  <1>2. out'[n + 1] = v /\ last' = v
    BY <1>1 DEF Write
  <1>3. \A k \in 1..n : out'[k] = out[k] /\ out[k] \in Nat /\ dif'[k] = dif[k] /\ dif[k] \in Nat
    BY <1>1 DEF Write, TypeOK
  <1>4. dif'[n + 1] = v - last
    BY <1>1 DEF Write
  <1>5. last \in Nat /\ last <= v
    <2>1. CASE n = 0
      BY <2>1 DEF TypeOK
    <2>2. CASE n # 0
      <3>1. n \in 1..n
        BY <1>1, <2>2
      <3>2. last = out[n] /\ last \in Nat
        BY <2>2 DEF TypeOK
      <3> QED BY <3>1, <3>2
    <2> QED BY <2>1, <2>2
  <1>6. dif'[n + 1] \in Nat
    BY <1>4, <1>5
  <1>7. out' \in [1..(n + 1) -> Nat]
    <2>1. \A k \in 1..(n + 1) : (IF k = n + 1 THEN v ELSE out[k]) \in Nat
      BY <1>1, <1>3
    <2> QED BY <2>1 DEF Write
  <1>8. dif' \in [1..(n + 1) -> Nat]
    <2>1. \A k \in 1..(n + 1) : (IF k = n + 1 THEN v - last ELSE dif[k]) \in Nat
      BY <1>1, <1>3, <1>5
    <2> QED BY <2>1 DEF Write
  <1>9. Increasing(n + 1, out')
    <2> SUFFICES ASSUME NEW a \in 1..(n + 1), NEW b \in 1..(n + 1), a < b
                 PROVE  out'[a] < out'[b]
      BY DEF Increasing
    <2>1. a \in 1..n
      BY <1>1
    <2>2. CASE b = n + 1
      BY <2>1, <2>2, <1>2, <1>3
    <2>3. CASE b # n + 1
      <3>1. b \in 1..n
        BY <1>1, <2>3
      <3> QED BY <3>1, <2>1, <1>3 DEF Increasing
    <2> QED BY <2>2, <2>3
  <1>10. Decodes(n + 1, dif', out')
    <2> SUFFICES ASSUME NEW k \in 1..(n + 1)
                 PROVE  out'[k] = dif'[k] + (IF k = 1 THEN 0 ELSE out'[k - 1])
      BY DEF Decodes
    <2>1. CASE k = n + 1
      <3>1. CASE n = 0
        <4>1. last = 0
          BY <3>1 DEF TypeOK
        <4> QED BY <4>1, <3>1, <2>1, <1>2, <1>4
      <3>2. CASE n # 0
        <4>1. n \in 1..n /\ k - 1 = n /\ k # 1
          BY <3>2, <1>1, <2>1
        <4>2. last = out[n]
          BY <3>2 DEF TypeOK
        <4>3. out'[k - 1] = last
          BY <4>1, <4>2, <1>3
        <4> QED BY <4>1, <4>3, <2>1, <1>2, <1>4, <1>5
      <3> QED BY <3>1, <3>2
    <2>2. CASE k # n + 1
      <3>1. k \in 1..n
        BY <2>2, <1>1
      <3>2. out[k] = dif[k] + (IF k = 1 THEN 0 ELSE out[k - 1])
        BY <3>1 DEF Decodes
      <3>3. CASE k = 1
        BY <3>1, <3>2, <3>3, <1>3
      <3>4. CASE k # 1
        <4>1. k - 1 \in 1..n
          BY <3>1, <3>4, <1>1
        <4> QED BY <4>1, <3>1, <3>2, <3>4, <1>3
      <3> QED BY <3>3, <3>4
    <2> QED BY <2>1, <2>2
  <1>11. n + 1 # 0 /\ n + 1 \in Nat
    BY <1>1
  <1> QED BY <1>1, <1>2, <1>3, <1>5, <1>7, <1>8, <1>9, <1>10, <1>11

\* going on to the next entry of the list
LEMMA Reading ==
    ASSUME TypeOK, j <= K, NextY
    PROVE  j' \in 1..(K + 1) /\ j' = j + 1 /\ head' \in Nat /\ (j' <= K => head' = Y[j'])
  <1>1. j \in 1..K /\ head = Y[j] /\ head \in Nat
    BY Given DEF TypeOK
  <1>2. CASE j < K
    <2>1. j + 1 \in 1..K /\ j + 1 # 1 /\ (j + 1) - 1 = j
      BY <1>1, <1>2, Given
    <2>2. Y[j + 1] = D[j + 1] + Y[j]
      BY <2>1, Given DEF Decodes
    <2>3. D[j + 1] \in Nat
      BY <2>1, Given
    <2>4. j' = j + 1 /\ head' = head + D[j + 1]
      BY <1>2 DEF NextY
    <2>5. head' = Y[j'] /\ head' \in Nat
      BY <1>1, <2>1, <2>2, <2>3, <2>4, Given
    <2>6. j' \in 1..(K + 1)
      BY <2>1, <2>4, Given
    <2> QED BY <2>4, <2>5, <2>6
  <1>3. CASE ~(j < K)
    <2>1. j' = j + 1 /\ head' = head /\ ~(j' <= K) /\ j' \in 1..(K + 1)
      BY <1>1, <1>3, Given DEF NextY
    <2> QED BY <2>1, <1>1
  <1> QED BY <1>2, <1>3

\* one step: v is written, the next of X (if x) and of the list (if y) are v
\* and gone on from, and what is not gone on from is beyond v
LEMMA Taking ==
    ASSUME Inv, NEW v \in Nat, NEW x \in BOOLEAN, NEW y \in BOOLEAN, x \/ y,
           x => i <= N /\ X[i] = v /\ NextX,
           y => j <= K /\ head = v /\ NextY,
           ~x => i' = i /\ (i <= N => v < X[i]),
           ~y => j' = j /\ head' = head /\ (j <= K => v < head),
           Write(v)
    PROVE  Inv'
  <1>0. /\ i \in 1..(N + 1) /\ j \in 1..(K + 1) /\ n \in Nat
        /\ \A k \in 1..n : out[k] \in Nat
        /\ \A a \in 1..N : X[a] \in Nat
        /\ \A b \in 1..K : Y[b] \in Nat
        /\ N \in Nat /\ K \in Nat
        /\ (j <= K => head = Y[j]) /\ head \in Nat
        /\ TypeOK /\ Before /\ Kept /\ Known /\ Increasing(n, out) /\ Decodes(n, dif, out)
    BY Given DEF TypeOK, Inv
  <1>1. \A k \in 1..n : out[k] < v
    <2>1. CASE x
      BY <2>1, <1>0 DEF Before
    <2>2. CASE y
      BY <2>2, <1>0 DEF Before
    <2> QED BY <2>1, <2>2
  <1>2. /\ n' \in Nat /\ last' \in Nat /\ out' \in [1..n' -> Nat] /\ dif' \in [1..n' -> Nat]
        /\ last' = out'[n'] /\ n' # 0 /\ Increasing(n', out') /\ Decodes(n', dif', out')
        /\ \A k \in 1..n : out'[k] = out[k]
        /\ out'[n'] = v /\ n' = n + 1
    BY <1>0, <1>1, Writing
  <1>3. /\ i' \in 1..(N + 1)
        /\ x => i' = i + 1
        /\ ~x => i' = i
    <2>1. CASE x
      BY <2>1, <1>0 DEF NextX
    <2>2. CASE ~x
      BY <2>2, <1>0
    <2> QED BY <2>1, <2>2
  <1>4. /\ j' \in 1..(K + 1) /\ head' \in Nat /\ (j' <= K => head' = Y[j'])
        /\ y => j' = j + 1
        /\ ~y => j' = j
    <2>1. CASE y
      BY <2>1, <1>0, Reading
    <2>2. CASE ~y
      BY <2>2, <1>0
    <2> QED BY <2>1, <2>2
  <1>5. TypeOK'
    BY <1>2, <1>3, <1>4 DEF TypeOK
  \* what is left comes after v
  <1>6. i' <= N => v < X[i']
    <2>1. CASE x
      <3> SUFFICES ASSUME i' <= N PROVE v < X[i']
        OBVIOUS
      <3>1. i \in 1..N /\ i' \in 1..N /\ i < i'
        BY <2>1, <1>0, <1>3
      <3>2. X[i] < X[i']
        BY <3>1, Given DEF Increasing
      <3> QED BY <3>2, <2>1
    <2>2. CASE ~x
      BY <2>2, <1>3
    <2> QED BY <2>1, <2>2
  <1>7. j' <= K => v < Y[j']
    <2>1. CASE y
      <3> SUFFICES ASSUME j' <= K PROVE v < Y[j']
        OBVIOUS
      <3>1. j \in 1..K /\ j' \in 1..K /\ j < j'
        BY <2>1, <1>0, <1>4
      <3>2. Y[j] < Y[j']
        BY <3>1, Given DEF Increasing
      <3> QED BY <3>2, <2>1, <1>0
    <2>2. CASE ~y
      BY <2>2, <1>4, <1>0
    <2> QED BY <2>1, <2>2
  <1>8. \A k \in 1..n' : k \in 1..n \/ k = n'
    BY <1>0, <1>2
  <1>9. n' \in 1..n' /\ \A k \in 1..n : k \in 1..n'
    BY <1>0, <1>2
  <1>10. Before'
    <2> SUFFICES ASSUME NEW k \in 1..n'
                 PROVE  /\ i' <= N => out'[k] < X[i']
                        /\ j' <= K => out'[k] < Y[j']
      BY DEF Before
    <2>1. out'[k] <= v /\ out'[k] \in Nat
      <3>1. CASE k = n'
        BY <3>1, <1>2
      <3>2. CASE k \in 1..n
        BY <3>2, <1>1, <1>2, <1>0
      <3> QED BY <3>1, <3>2, <1>8
    <2>2. i' <= N => X[i'] \in Nat
      BY <1>0, <1>3
    <2>3. j' <= K => Y[j'] \in Nat
      BY <1>0, <1>4
    <2> QED BY <2>1, <2>2, <2>3, <1>6, <1>7
  <1>11. Kept'
    <2>1. ASSUME NEW a \in 1..(i' - 1) PROVE \E k \in 1..n' : out'[k] = X[a]
      <3>1. CASE a \in 1..(i - 1)
        BY <3>1, <1>0, <1>2, <1>9 DEF Kept
      <3>2. CASE ~(a \in 1..(i - 1))
        <4>1. x /\ a = i
          BY <3>2, <1>0, <1>3
        <4> QED BY <4>1, <1>2, <1>9
      <3> QED BY <3>1, <3>2
    <2>2. ASSUME NEW b \in 1..(j' - 1) PROVE \E k \in 1..n' : out'[k] = Y[b]
      <3>1. CASE b \in 1..(j - 1)
        BY <3>1, <1>0, <1>2, <1>9 DEF Kept
      <3>2. CASE ~(b \in 1..(j - 1))
        <4>1. y /\ b = j
          BY <3>2, <1>0, <1>4
        <4> QED BY <4>1, <1>0, <1>2, <1>9
      <3> QED BY <3>1, <3>2
    <2> QED BY <2>1, <2>2 DEF Kept
  <1>12. Known'
    <2> SUFFICES ASSUME NEW k \in 1..n'
                 PROVE \/ \E a \in 1..(i' - 1) : out'[k] = X[a]
                       \/ \E b \in 1..(j' - 1) : out'[k] = Y[b]
      BY DEF Known
    <2>1. CASE k = n'
      <3>1. CASE x
        <4>1. i \in 1..(i' - 1)
          BY <3>1, <1>0, <1>3
        <4> QED BY <2>1, <3>1, <4>1, <1>2
      <3>2. CASE y
        <4>1. j \in 1..(j' - 1)
          BY <3>2, <1>0, <1>4
        <4> QED BY <2>1, <3>2, <4>1, <1>0, <1>2
      <3> QED BY <3>1, <3>2
    <2>2. CASE k \in 1..n
      <3>1. out'[k] = out[k]
        BY <2>2, <1>2
      <3>2. /\ \A a \in 1..(i - 1) : a \in 1..(i' - 1)
            /\ \A b \in 1..(j - 1) : b \in 1..(j' - 1)
        BY <1>0, <1>3, <1>4
      <3> QED BY <2>2, <3>1, <3>2, <1>0 DEF Known
    <2> QED BY <2>1, <2>2, <1>8
  <1> QED BY <1>2, <1>5, <1>10, <1>11, <1>12 DEF Inv

LEMMA Step == Inv /\ [Next]_vars => Inv'
  <1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <1>0. /\ i \in 1..(N + 1) /\ head \in Nat /\ N \in Nat
        /\ i <= N => X[i] \in Nat
    BY Given DEF Inv, TypeOK
  <1>1. CASE OnlyY
    <2>1. i' = i /\ ~(i <= N) /\ j <= K /\ NextY /\ Write(head)
      BY <1>1, <1>0 DEF OnlyY
    <2> QED BY <2>1, <1>0, Taking DEF OnlyY
  <1>2. CASE OnlyX
    <2>1. i <= N /\ ~(j <= K) /\ NextX /\ j' = j /\ head' = head /\ Write(X[i]) /\ X[i] \in Nat
      <3>1. ~(j <= K)
        BY <1>2, Given DEF OnlyX, Inv, TypeOK
      <3> QED BY <1>2, <1>0, <3>1 DEF OnlyX
    <2> QED BY <2>1, Taking
  <1>3. CASE Equal
    BY <1>3, <1>0, Taking DEF Equal
  <1>4. CASE Later
    <2>1. i' = i /\ i <= N /\ head < X[i] /\ j <= K /\ NextY /\ Write(head)
      BY <1>4, <1>0 DEF Later
    <2> QED BY <2>1, <1>0, Taking
  <1>5. CASE Sooner
    <2>1. i <= N /\ X[i] < head /\ NextX /\ j' = j /\ head' = head /\ Write(X[i]) /\ X[i] \in Nat
      BY <1>5, <1>0 DEF Sooner
    <2> QED BY <2>1, Taking
  <1>6. CASE UNCHANGED vars
    BY <1>6 DEF vars, Inv, TypeOK, Before, Kept, Known, Increasing, Decodes
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next

THEOREM Always == Spec => []Inv
  BY Start, Step, PTL DEF Spec

\* At the end the list holds the entries of both, in order, each once.
THEOREM Woven ==
    ASSUME Inv, Done
    PROVE  /\ Increasing(n, out) /\ Decodes(n, dif, out) /\ dif \in [1..n -> Nat]
           /\ {out[k] : k \in 1..n} = {X[a] : a \in 1..N} \union {Y[b] : b \in 1..K}
  <1>1. i - 1 = N /\ j - 1 = K
    BY Given DEF Done
  <1>2. ASSUME NEW k \in 1..n
        PROVE  out[k] \in {X[a] : a \in 1..N} \union {Y[b] : b \in 1..K}
    BY <1>1 DEF Inv, Known
  <1>3. ASSUME NEW a \in 1..N
        PROVE  X[a] \in {out[k] : k \in 1..n}
    BY <1>1 DEF Inv, Kept
  <1>4. ASSUME NEW b \in 1..K
        PROVE  Y[b] \in {out[k] : k \in 1..n}
    BY <1>1 DEF Inv, Kept
  <1> QED BY <1>2, <1>3, <1>4 DEF Inv, TypeOK

=============================================================================

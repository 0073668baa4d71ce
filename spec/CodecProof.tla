----------------------------- MODULE CodecProof -----------------------------
(***************************************************************************)
(* The bytes of the compressed list (VarBytes and VarAt of Codec, push and *)
(* decode of VarIntVec), one byte per step: whoever reads what has been    *)
(* written gets the numbers that were written, one after the other, for    *)
(* any numbers and any number of them.  What the reader makes of a byte    *)
(* depends on the bytes before only, so here it reads every byte as soon   *)
(* as it is there.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLAPS

VARIABLES todo,           \* what is left of the number that is being written
          number,         \* that number
          byte,           \* the byte just written
          val, mul,       \* the reader: value so far, weight of the next group
          got             \* the number the reader has just got, or -1
vars == <<todo, number, byte, val, mul, got>>

Init == /\ number \in Nat /\ todo = number
        /\ byte = 0 /\ val = 0 /\ mul = 1 /\ got = number

\* seven bits more, and further ones follow
More == /\ todo >= 128
        /\ byte' = (todo % 128) + 128
        /\ todo' = todo \div 128
        /\ UNCHANGED number
\* the last bits, and another number
Last == /\ todo < 128
        /\ byte' = todo
        /\ number' \in Nat /\ todo' = number'

\* what the reader does with a byte, whatever the writer meant by it
Read == IF byte' >= 128
        THEN val' = val + (byte' - 128) * mul /\ mul' = mul * 128 /\ got' = -1
        ELSE got' = val + byte' * mul /\ val' = 0 /\ mul' = 1

Next == (More \/ Last) /\ Read
Spec == Init /\ [][Next]_vars

Inv == /\ number \in Nat /\ todo \in Nat /\ val \in Nat /\ mul \in Nat
       /\ byte \in 0..255
       /\ number = val + todo * mul

\* the reader gets a number exactly when one has been written, and that one
Right == [][IF todo < 128 THEN got' = number ELSE got' = -1]_vars

LEMMA Start == Init => Inv
  BY DEF Init, Inv

LEMMA Split == \A t \in Nat : /\ t \div 128 \in Nat /\ t % 128 \in 0..127
                              /\ t = 128 * (t \div 128) + (t % 128)
  OBVIOUS

LEMMA Weigh == \A q \in Nat, r \in Nat, m \in Nat : (128 * q + r) * m = r * m + q * (m * 128)
  OBVIOUS

LEMMA Step == Inv /\ [Next]_vars => Inv'
  <1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <1>1. CASE More /\ Read
    <2> DEFINE q == todo \div 128
               r == todo % 128
    <2>1. q \in Nat /\ r \in 0..127 /\ todo = 128 * q + r
      BY Split DEF Inv
    <2>2. byte' = r + 128 /\ todo' = q /\ number' = number
      BY <1>1 DEF More
    <2>3. val' = val + r * mul /\ mul' = mul * 128
      BY <1>1, <2>1, <2>2 DEF Read
    <2> HIDE DEF q, r
    <2>4. r \in Nat /\ r * mul \in Nat /\ q * (mul * 128) \in Nat /\ mul * 128 \in Nat
      BY <2>1 DEF Inv
    <2>5. todo * mul = r * mul + q * (mul * 128)
      BY <2>1, <2>4, Weigh DEF Inv
    <2>6. number' = val' + todo' * mul'
      BY <2>2, <2>3, <2>4, <2>5 DEF Inv
    <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>6 DEF Inv
  <1>2. CASE Last /\ Read
    <2>1. byte' = todo /\ byte' \in 0..127 /\ number' \in Nat /\ todo' = number'
      BY <1>2 DEF Last, Inv
    <2>2. val' = 0 /\ mul' = 1
      BY <1>2, <2>1 DEF Read
    <2>3. number' = val' + todo' * mul'
      BY <2>1, <2>2
    <2> QED BY <2>1, <2>2, <2>3 DEF Inv
  <1>3. CASE UNCHANGED vars
    BY <1>3 DEF vars, Inv
  <1> QED BY <1>1, <1>2, <1>3 DEF Next

LEMMA Gets == Inv /\ Next => IF todo < 128 THEN got' = number ELSE got' = -1
  <1> SUFFICES ASSUME Inv, Next PROVE IF todo < 128 THEN got' = number ELSE got' = -1
    OBVIOUS
  <1>1. CASE Last
    <2>1. byte' = todo /\ todo < 128 /\ todo \in Nat
      BY <1>1 DEF Last, Inv
    <2>2. got' = val + byte' * mul
      BY <2>1 DEF Next, Read
    <2>3. got' = val + todo * mul
      BY <2>1, <2>2
    <2> QED BY <2>1, <2>3 DEF Inv
  <1>2. CASE More
    <2>1. todo % 128 \in 0..127 /\ ~(todo < 128)
      <3>1. todo \in Nat /\ todo >= 128
        BY <1>2 DEF More, Inv
      <3>2. todo % 128 \in 0..127
        BY <3>1, Split
      <3> QED BY <3>1, <3>2
    <2>2. byte' >= 128
      BY <1>2, <2>1 DEF More
    <2>3. got' = -1
      BY <2>2 DEF Next, Read
    <2> QED BY <2>1, <2>3
  <1> QED BY <1>1, <1>2 DEF Next

THEOREM Always == Spec => []Inv
  BY Start, Step, PTL DEF Spec

THEOREM Reads == Spec => Right
  <1>1. Inv /\ [Next]_vars => [IF todo < 128 THEN got' = number ELSE got' = -1]_vars
    BY Gets
  <1> QED BY <1>1, Always, PTL DEF Spec, Right
=============================================================================

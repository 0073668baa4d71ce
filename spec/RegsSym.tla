------------------------------ MODULE RegsSym ------------------------------
(***************************************************************************)
(* Packed registers (module Registers) for Apalache: every word, slot and  *)
(* value, symbolically, for both layouts of the crate: five registers of   *)
(* six bits, six of five bits.  The invariants are checked of the initial  *)
(* states.                                                                 *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  w,
  \* @type: Int;
  v

\* 2^(bits * slot)
\* @type: (Int, Int) => Int;
Shift(bits, i) ==
  IF bits = 6
  THEN IF i = 0 THEN 1 ELSE IF i = 1 THEN 64 ELSE IF i = 2 THEN 4096 ELSE IF i = 3 THEN 262144 ELSE 16777216
  ELSE IF i = 0 THEN 1 ELSE IF i = 1 THEN 32 ELSE IF i = 2 THEN 1024 ELSE IF i = 3 THEN 32768
       ELSE IF i = 4 THEN 1048576 ELSE 33554432
\* @type: Int => Int;
RM(bits) == IF bits = 6 THEN 64 ELSE 32

\* @type: (Int, Int, Int) => Int;
Get(bits, word, i) == (word \div Shift(bits, i)) % RM(bits)
\* @type: (Int, Int, Int, Int) => Int;
SetGreater(bits, word, i, val) ==
  LET cur == Get(bits, word, i) IN IF val > cur THEN word + (val - cur) * Shift(bits, i) ELSE word

Init == w \in 0..1073741823 /\ v \in 0..63
Next == UNCHANGED <<w, v>>

\* The register becomes the greater value, the others stay, and the two bits
\* that are not used stay free.
Writes(bits, last) ==
  \A i \in 0..last :
    v < RM(bits) =>
      LET u == SetGreater(bits, w, i, v) IN
      /\ u >= 0 /\ u <= 1073741823
      /\ Get(bits, u, i) = (IF v > Get(bits, w, i) THEN v ELSE Get(bits, w, i))
      /\ \A j \in 0..last : j # i => Get(bits, u, j) = Get(bits, w, j)
Writes6 == Writes(6, 4)
Writes5 == Writes(5, 5)

\* A word is its registers.
Sum6 == w = Get(6, w, 0) + 64 * Get(6, w, 1) + 4096 * Get(6, w, 2) + 262144 * Get(6, w, 3) + 16777216 * Get(6, w, 4)
Sum5 == w = Get(5, w, 0) + 32 * Get(5, w, 1) + 1024 * Get(5, w, 2) + 32768 * Get(5, w, 3) + 1048576 * Get(5, w, 4)
            + 33554432 * Get(5, w, 5)
=============================================================================

---------------------------- MODULE CodesCheckA ----------------------------
(* Prefixes for CodesCheck at the crate's own constants: the ends of the    *)
(* ranges, every single bit and every block of ones, in several buckets.    *)
(* TLC computes in 32 bits, so codes from 2^31 on are left to CodesSym.tla. *)
EXTENDS CodesCheck
Lows == {0, 1, SpanL - 1} \cup {2^i : i \in 0..(PPbits - P - 1)}
        \cup {2^i - 1 : i \in 0..(PPbits - P)} \cup {2^i + 1 : i \in 0..(PPbits - P - 1)}
Buck == {0, 1, 2, M \div 2, M - 2, M - 1} \cup {2^i : i \in 0..(P - 1)}
Crate == {x \in {b * SpanL + (y % SpanL) : b \in Buck, y \in Lows} : x < 2^(31 - FlagShift) - 1}
Whole == 0..(2^PPbits - 1)
=============================================================================

----------------------------- MODULE SketchSet -----------------------------
(***************************************************************************)
(* L0: the design a user relies on.  A sketch is the set of hashes it has  *)
(* seen, directly or through merges; what it answers is a function of its  *)
(* kind, its precision and that set.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS PrecOK(_, _),        \* kind, precision: can such a sketch exist
          EstOK(_, _, _, _)    \* kind, precision, seen, e: e is its estimate

VARIABLES sk,      \* sketch id -> [kind, p, seen]
          reply    \* result of the last operation

vars == <<sk, reply>>

Put(k, v) == sk' = (k :> v) @@ sk
Live(k)   == k \in DOMAIN sk

Init == sk = <<>> /\ reply = [r |-> "none"]

\* Creating a sketch succeeds exactly for supported precisions.
New(k, kind, p) ==
    /\ PrecOK(kind, p)
    /\ Put(k, [kind |-> kind, p |-> p, seen |-> {}])
    /\ reply' = [r |-> "ok"]

NewRefused(kind, p) ==
    /\ ~PrecOK(kind, p)
    /\ reply' = [r |-> "InvalidPrecision"]
    /\ UNCHANGED sk

\* Inserting a set of hashes (one at a time, in any order).
Insert(k, X) ==
    /\ Live(k)
    /\ Put(k, [sk[k] EXCEPT !.seen = @ \cup X])
    /\ reply' = [r |-> "ok"]

\* An estimate changes nothing.
Count(k, e) ==
    /\ Live(k)
    /\ EstOK(sk[k].kind, sk[k].p, sk[k].seen, e)
    /\ reply' = [r |-> "ok", e |-> e]
    /\ UNCHANGED sk

\* Merging unites, exactly when the precisions agree.
Merge(a, b) ==
    /\ Live(a) /\ Live(b)
    /\ sk[a].kind = sk[b].kind /\ sk[a].p = sk[b].p
    /\ Put(a, [sk[a] EXCEPT !.seen = @ \cup sk[b].seen])
    /\ reply' = [r |-> "ok"]

MergeRefused(a, b) ==
    /\ Live(a) /\ Live(b)
    /\ sk[a].kind = sk[b].kind /\ sk[a].p # sk[b].p
    /\ reply' = [r |-> "IncompatiblePrecision"]
    /\ UNCHANGED sk

\* An operation on k that does not come to its end, because the element cannot
\* be hashed, the target of a save is full, saved data is cut, and so on:
\* nothing has happened.
Fail(k) ==
    /\ Live(k)
    /\ reply' = [r |-> "failed"]
    /\ UNCHANGED sk

\* b becomes a copy of a: a clone, or a saved and reloaded sketch.
Copy(a, b) ==
    /\ Live(a)
    /\ Put(b, sk[a])
    /\ reply' = [r |-> "ok"]
=============================================================================

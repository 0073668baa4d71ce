------------------------------- MODULE MCConc -------------------------------
(***************************************************************************)
(* Several threads, one shared sketch (0) and one sketch of its own each.  *)
(* Merging the shared sketch and copying it are not atomic: they walk over *)
(* its sorted entries by position, while other threads do the same.  Its   *)
(* owner may insert into it again only when nobody is walking (Discipline, *)
(* the rule the language enforces for the references that merge, clone and *)
(* save take).                                                             *)
(*                                                                         *)
(* Then every interleaving is a behaviour of SketchSet in which a merge or *)
(* copy happens at its end (Refines), whose operations on different        *)
(* sketches can be reordered: the logs of the threads may be read one      *)
(* after the other.  Without the discipline Refines fails.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Threads, Hs, Discipline

VARIABLES src,      \* entries of sketch 0 in order
          own,      \* own[t]: entries of t's sketch
          walk,     \* walk[t]: [on, i, got, copy]
          reply

vars == <<src, own, walk, reply>>
Idle == [on |-> FALSE, i |-> 1, got |-> {}, copy |-> FALSE]

Init == src = <<>> /\ own = [t \in Threads |-> {}] /\ walk = [t \in Threads |-> Idle]
        /\ reply = [r |-> "ok"]

Free == \A t \in Threads : ~walk[t].on

\* the owner's insertion keeps the entries sorted: it moves them
OwnerInsert(h) ==
    /\ Discipline => Free
    /\ src' = SetToSortSeq(ToSet(src) \cup {h}, <)
    /\ reply' = [r |-> "ok"] /\ UNCHANGED <<own, walk>>

Insert(t, h) ==
    /\ ~walk[t].on
    /\ own' = [own EXCEPT ![t] = @ \cup {h}]
    /\ reply' = [r |-> "ok"] /\ UNCHANGED <<src, walk>>

Start(t, c) ==
    /\ ~walk[t].on
    /\ walk' = [walk EXCEPT ![t] = [on |-> TRUE, i |-> 1, got |-> {}, copy |-> c]]
    /\ UNCHANGED <<src, own, reply>>

Read(t) ==
    /\ walk[t].on /\ walk[t].i <= Len(src)
    /\ walk' = [walk EXCEPT ![t].i = @ + 1, ![t].got = @ \cup {src[walk[t].i]}]
    /\ UNCHANGED <<src, own, reply>>

End(t) ==
    /\ walk[t].on /\ walk[t].i > Len(src)
    /\ own' = [own EXCEPT ![t] = (IF walk[t].copy THEN {} ELSE @) \cup walk[t].got]
    /\ walk' = [walk EXCEPT ![t] = Idle]
    /\ reply' = [r |-> "ok"] /\ UNCHANGED src

MergeOwn(t, u) == \* from another thread's sketch, lent while both are idle
    /\ t # u /\ ~walk[t].on /\ ~walk[u].on
    /\ own' = [own EXCEPT ![t] = @ \cup own[u]]
    /\ reply' = [r |-> "ok"] /\ UNCHANGED <<src, walk>>

Next == \/ \E h \in Hs : OwnerInsert(h)
        \/ \E t \in Threads : \/ \E h \in Hs : Insert(t, h)
                              \/ \E c \in BOOLEAN : Start(t, c)
                              \/ Read(t) \/ End(t)
                              \/ \E u \in Threads : MergeOwn(t, u)
Spec == Init /\ [][Next]_vars

\* L0 for the same behaviour
AbsSk == (0 :> [kind |-> "pf", p |-> 4, seen |-> ToSet(src)])
         @@ [t \in Threads |-> [kind |-> "pf", p |-> 4, seen |-> own[t]]]
AnyPrec(kind, p) == TRUE
AnyEst(kind, p, s, e) == TRUE
L0 == INSTANCE SketchSet WITH PrecOK <- AnyPrec, EstOK <- AnyEst, sk <- AbsSk

L0Next ==
    \/ \E k \in {0} \cup Threads : \E h \in Hs : L0!Insert(k, {h})
    \/ \E t \in Threads : \/ \E b \in {0} \cup Threads : b # t /\ L0!Merge(t, b)
                          \/ L0!Copy(0, t)
\* End is a step in which exactly what the shared sketch has seen arrives
Arrives == \A t \in Threads : End(t) =>
              own'[t] = (IF walk[t].copy THEN {} ELSE own[t]) \cup ToSet(src)
Refines == [][L0Next /\ Arrives]_<<AbsSk, reply>>

\* steps of different threads commute: neither disables the other or changes
\* what it does
Alone == \A t \in Threads : walk[t].got \subseteq ToSet(src) /\ walk[t].i <= Len(src) + 1
=============================================================================

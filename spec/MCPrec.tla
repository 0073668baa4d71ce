------------------------------- MODULE MCPrec -------------------------------
(* L0 with sketches of both kinds and several precisions, created, merged    *)
(* and copied in every order: refused operations change nothing, and what a  *)
(* sketch has seen came from sketches of its own kind and precision.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES sk, reply, into      \* into: who inserted what, by kind and precision
Keys == {1, 2, 3}
Asked == {<<"plus", 3>>, <<"plus", 4>>, <<"plus", 18>>, <<"pf", 16>>, <<"pf", 17>>}
Hs == {1, 2}

PrecOK(kind, p) == p \in 4..(IF kind = "plus" THEN 18 ELSE 16)
EstOK(kind, p, seen, e) == e = <<kind, p, seen>>
S == INSTANCE SketchSet

vars == <<sk, reply, into>>
Init == S!Init /\ into = {}

Next ==
  \/ \E k \in Keys, a \in Asked : (S!New(k, a[1], a[2]) \/ S!NewRefused(a[1], a[2])) /\ UNCHANGED into
  \/ \E k \in Keys, h \in Hs : S!Insert(k, {h}) /\ into' = into \cup {<<sk[k].kind, sk[k].p, h>>}
  \/ \E k \in Keys : S!Live(k) /\ S!Count(k, <<sk[k].kind, sk[k].p, sk[k].seen>>) /\ UNCHANGED into
  \/ \E a, b \in Keys : a # b /\ (S!Merge(a, b) \/ S!MergeRefused(a, b) \/ S!Copy(a, b)) /\ UNCHANGED into
Spec == Init /\ [][Next]_vars
View == <<sk, into>>

Untouched == \A k \in DOMAIN sk : PrecOK(sk[k].kind, sk[k].p)
OnlyEqual == \A k \in DOMAIN sk : \A h \in sk[k].seen : <<sk[k].kind, sk[k].p, h>> \in into
\* an error leaves every sketch as it was
Kept == [][reply'.r # "ok" => sk' = sk]_vars
=============================================================================

-------------------------------- MODULE MCPF --------------------------------
(* Exhaustive check of HLLPF against SketchSet for small constants.         *)
EXTENDS HLLPF

CONSTANTS Keys, MaxRank

VARIABLES sk, ghost, reply
vars == <<sk, ghost, reply>>

Hashes == [b : 0..(M - 1), r : 1..MaxRank]

Init == /\ sk = [k \in Keys |-> Fresh]
        /\ ghost = [k \in Keys |-> [kind |-> "pf", p |-> P, seen |-> {}]]
        /\ reply = [r |-> "none"]

Ok == reply' = [r |-> "ok"]
Insert(k, h) == /\ sk' = [sk EXCEPT ![k] = DoInsert(@, h)]
                /\ ghost' = [ghost EXCEPT ![k].seen = @ \cup {h}] /\ Ok
Count(k) == /\ reply' = [r |-> "ok", e |-> Seen(sk[k])] /\ UNCHANGED <<sk, ghost>>
Merge(a, b) == /\ sk' = [sk EXCEPT ![a] = DoMerge(@, sk[b])]
               /\ ghost' = [ghost EXCEPT ![a].seen = @ \cup ghost[b].seen] /\ Ok
Copy(a, b) == sk' = [sk EXCEPT ![b] = sk[a]] /\ ghost' = [ghost EXCEPT ![b] = ghost[a]] /\ Ok
New(k) == /\ sk' = [sk EXCEPT ![k] = Fresh]
          /\ ghost' = [ghost EXCEPT ![k].seen = {}] /\ Ok

Next == \E k \in Keys :
          \/ \E h \in Hashes : Insert(k, h)
          \/ Count(k) \/ New(k)
          \/ \E b \in Keys \ {k} : Merge(k, b) \/ Copy(k, b)
Spec == Init /\ [][Next]_vars

L0PrecOK(kind, p) == p = P
L0EstOK(kind, p, seen, e) == e = Answer(seen)
L0 == INSTANCE SketchSet WITH PrecOK <- L0PrecOK, EstOK <- L0EstOK, sk <- ghost
L0Next == \E k \in Keys :
    \/ L0!New(k, "pf", P)
    \/ \E h \in Hashes : L0!Insert(k, {h})
    \/ "e" \in DOMAIN reply' /\ L0!Count(k, reply'.e)
    \/ \E b \in Keys \ {k} : L0!Merge(k, b) \/ L0!Copy(k, b)
Refines == [][L0Next]_<<ghost, reply>>

Canonical == \A k \in Keys : Values(sk[k]) = Answer(ghost[k].seen)
RegistersOK == \A k \in Keys :
    LET r == sk[k] IN
      /\ r.zeros = Cardinality({i \in 0..(M - 1) : Get(r, i) = 0})
      /\ \A j \in 1..Len(r.w) : r.w[j] < 2^(RegBits * PerWord)
      /\ \A i \in r.count..(Len(r.w) * PerWord - 1) : Get(r, i) = 0
MergeLaws == \A a, b \in Keys :
    /\ DoMerge(sk[a], sk[b]) = DoMerge(sk[b], sk[a])
    /\ DoMerge(DoMerge(sk[a], sk[b]), sk[b]) = DoMerge(sk[a], sk[b])
    /\ DoMerge(sk[a], Fresh) = sk[a]
    /\ \A c \in Keys : DoMerge(DoMerge(sk[a], sk[b]), sk[c]) = DoMerge(sk[a], DoMerge(sk[b], sk[c]))
View == <<sk, ghost>>
=============================================================================

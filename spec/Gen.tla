-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Behaviours of HLLPlus with the crate's own constants, one for every     *)
(* transition between states that differ in what the sketches have seen,   *)
(* their form and what is pending.  Each is printed as a list of commands  *)
(* and replayed in the real crate.                                         *)
(*                                                                         *)
(* Elements come in runs [s, d, n, r] as in HLLRuns.                       *)
(***************************************************************************)
EXTENDS HLLPlus, Json

CONSTANTS Keys, Runs, Ops, MaxLen
\* Runs: sequence of runs

VARIABLES sk, seen, path
vars == <<sk, seen, path>>

RunHashes(a) == [i \in 1..a.n |-> [pre |-> a.s + (i - 1) * a.d, r |-> a.r]]
InsertRun(s, a) == FoldLeft(DoInsert, s, RunHashes(a))

Init == /\ sk = [k \in Keys |-> Fresh]
        /\ seen = [k \in Keys |-> {}]
        /\ path = <<>>

Do(cmd) == path' = Append(path, cmd)
Is(op) == op \in Ops

Next ==
    \E k \in Keys :
      \/ \E x \in 1..Len(Runs) :
            /\ sk' = [sk EXCEPT ![k] = InsertRun(@, Runs[x])]
            /\ seen' = [seen EXCEPT ![k] = @ \cup {x}]
            /\ Do(<<"ins", k, x>>)
      \/ /\ Is("cnt")
         /\ sk' = [sk EXCEPT ![k] = DoCount(@)]
         /\ Do(<<"cnt", k, 0>>) /\ UNCHANGED seen
      \/ /\ Is("mrg")
         /\ \E b \in Keys \ {k} :
              /\ sk' = [sk EXCEPT ![k] = DoMerge(@, sk[b])]
              /\ seen' = [seen EXCEPT ![k] = @ \cup seen[b]]
              /\ Do(<<"mrg", k, b>>)
      \/ /\ Is("cpy")
         /\ \E b \in Keys \ {k} :
              /\ sk' = [sk EXCEPT ![b] = sk[k]]
              /\ seen' = [seen EXCEPT ![b] = seen[k]]
              /\ Do(<<"cpy", k, b>>)

Spec == Init /\ [][Next]_vars
View == <<seen, [k \in Keys |-> <<sk[k].large, sk[k].pend>>]>>
Short == Len(path) < MaxLen
\* printed for every transition, also those to states already known
Emit == PrintT(<<"GEN", ToJson(path')>>)
Header == PrintT(<<"RUNS", ToJson(Runs)>>)
ASSUME Header
=============================================================================

----------------------------- MODULE RunsCheck -----------------------------
(***************************************************************************)
(* Checks the run arithmetic of HLLRuns, which the trace specifications    *)
(* use to evaluate large sets of hashes quickly, against the pointwise     *)
(* definitions of HLLPlus, for every choice of runs in a small universe.   *)
(***************************************************************************)
EXTENDS HLLRuns, HLLPlus

CONSTANTS SmallPP, SmallBase, SmallLimit, NRuns, Steps, Lens, Starts

SmallLimitOf(p) == SmallLimit

\* every run the trace specifications may meet
RunOK(a) ==
    /\ a.s + (a.n - 1) * a.d < 2^PP
    /\ UniformRun(P, a)
    /\ a.n = 1 \/ a.s \div SpanL = (a.s + (a.n - 1) * a.d) \div SpanL \/ a.d = SpanL
    /\ a.n = 1 => a.d = 1
Universe == {a \in [s : Starts, d : Steps, n : Lens, r : {1, RestBits + 1}] : RunOK(a)}

VARIABLES atoms
Init == atoms = {}
Next == /\ Cardinality(atoms) < NRuns
        /\ \E a \in Universe \ atoms : atoms' = atoms \cup {a}

HashesOf(a) == {[pre |-> a.s + i * a.d, r |-> a.r] : i \in 0..(a.n - 1)}
AllHashes == UNION {HashesOf(a) : a \in atoms}

SmallFormRight ==
    LET f   == SmallForm(P, atoms)
        cs  == Codes(AllHashes)
        len == EncLen(cs)
    IN  IF len > SmallLimit THEN f[2] > SmallLimit
        ELSE f = <<Cardinality(cs), len>>

Expand(cells) ==       \* cells as a sequence of ranks
    FoldLeft(LAMBDA acc, c : acc \o [i \in 1..c[1] |-> c[2]], <<>>, cells)

CellsRight ==
    LET e == Expand(PlusCells(P, atoms))
    IN  /\ Len(e) = M
        /\ \A b \in 0..(M - 1) : e[b + 1] = BestRank(AllHashes, b)

\* More entries never encode shorter.
MonotoneLen ==
    \A a \in atoms : EncLen(Codes(UNION {HashesOf(x) : x \in atoms \ {a}})) <= EncLen(Codes(AllHashes))
=============================================================================

---------------------------- MODULE HLLEstimate ----------------------------
(***************************************************************************)
(* The published estimators (Flajolet et al. 2007; Heule, Nunkesser and    *)
(* Hall 2013 with its appendix), as predicates "e is the estimate of a     *)
(* sketch that holds this information".  Comparisons allow for a different *)
(* order of floating-point operations, nothing more.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, F64, HLLRuns

CONSTANT TablesFile     \* JSON: {"raw": [[decimal strings] x 15], "bias": ...}

Tables == JsonDeserialize(TablesFile)
\* indexed 1..15 for precisions 4..18
RawTab  == TLCEval([k \in 1..15 |-> TLCEval([i \in 1..Len(Tables.raw[k]) |-> FParse(Tables.raw[k][i])])])
BiasTab == TLCEval([k \in 1..15 |-> TLCEval([i \in 1..Len(Tables.bias[k]) |-> FParse(Tables.bias[k][i])])])

F(n) == FInt(n)
Zero == FInt(0)
One  == FInt(1)

Alpha(m) == CASE m = 16 -> FParse("0.673")
              [] m = 32 -> FParse("0.697")
              [] m = 64 -> FParse("0.709")
              [] OTHER  -> FDiv(FParse("0.7213"), FAdd(One, FDiv(FParse("1.079"), F(m))))

LinearCount(m, zeros) == FMul(F(m), FLn(FDiv(F(m), F(zeros))))

PowerSum(cells) == FoldLeft(LAMBDA acc, c : FAdd(acc, FMul(F(c[1]), FPow2(-c[2]))), Zero, cells)
Raw(m, cells) == FDiv(FMul(FMul(Alpha(m), F(m)), F(m)), PowerSum(cells))

Threshold(p) == <<10, 20, 40, 80, 220, 400, 900, 1800, 3100, 6500,
                  11500, 20000, 50000, 120000, 350000>>[p - 3]

\* a <= b up to rounding, and strictly below up to rounding
LeTol(a, b) == FLe(a, b) \/ FClose(a, b, 11, Zero)

\* The biases that linear interpolation of the table gives at raw (more than
\* one only where the published raw estimates are not monotonic).
Biases(p, raw) ==
    LET R == RawTab[p - 3]
        B == BiasTab[p - 3]
        n == Len(R)
        inner == {i \in 2..n : LeTol(R[i - 1], raw) /\ LeTol(raw, R[i])}
    IN  (IF LeTol(raw, R[1]) THEN {B[1]} ELSE {})
        \cup (IF LeTol(R[n], raw) THEN {B[n]} ELSE {})
        \cup {FAdd(B[i - 1],
                   FMul(FDiv(FSub(raw, R[i - 1]), FSub(R[i], R[i - 1])),
                        FSub(B[i], B[i - 1]))) : i \in inner}

LargePlusOK(p, cells, e) ==
    LET m     == Buckets(p)
        zeros == ZeroCells(cells)
        lc    == LinearCount(m, zeros)
        thr   == F(Threshold(p))
        raw   == Raw(m, cells)
        five  == F(5 * m)
        ok(x) == FClose(e, x, 9, F(m))
    IN  \/ zeros # 0 /\ LeTol(lc, thr) /\ ok(lc)
        \/ /\ zeros # 0 => LeTol(thr, lc)
           /\ \/ LeTol(raw, five) /\ \E b \in Biases(p, raw) : ok(FSub(raw, b))
              \/ LeTol(five, raw) /\ ok(raw)

SmallPlusOK(n, e) == FClose(e, LinearCount(2^PP, 2^PP - n), 7, One)

PlusEstOK(p, atoms, e) ==
    LET small == SmallForm(p, atoms)
    IN  IF small[2] <= BytesLimit(p) THEN SmallPlusOK(small[1], e)
        ELSE LargePlusOK(p, PlusCells(p, atoms), e)

Two32 == FPow2(32)
PFCellsOK(p, cells, e) ==
    LET m     == Buckets(p)
        zeros == ZeroCells(cells)
        raw   == Raw(m, cells)
        lim   == FMul(FParse("2.5"), F(m))
        big   == FDiv(Two32, F(30))
        top   == FMul(Two32, FParse("0.999999"))
        ok(x) == FClose(e, x, 9, Zero)
        small == zeros # 0 /\ LeTol(raw, lim)
        notsmall == zeros = 0 \/ LeTol(lim, raw)
    IN  \/ small /\ FClose(e, LinearCount(m, zeros), 9, F(m))
        \/ notsmall /\ LeTol(raw, big) /\ ok(raw)
        \/ notsmall /\ LeTol(big, raw) /\ LeTol(raw, top)
           /\ FClose(e, FNeg(FMul(Two32, FLn(FSub(One, FDiv(raw, Two32))))), 8, Zero)
        \/ notsmall /\ LeTol(top, raw) /\ FFinite(e) /\ LeTol(Two32, e)

PFEstOK(p, atoms, e) == PFCellsOK(p, PFCells(p, atoms), e)
=============================================================================

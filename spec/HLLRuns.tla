------------------------------ MODULE HLLRuns ------------------------------
(***************************************************************************)
(* The information a set of hashes carries for each sketch kind, computed  *)
(* from the definitions in the papers: distinct entries and compressed     *)
(* size of the small form, buckets and ranks of the large form.            *)
(*                                                                         *)
(* A set of hashes is given as a set of runs (so that precision 18 with    *)
(* hundreds of thousands of hashes stays cheap):                           *)
(*   plus  [s, d, n, r]: hashes with 25-bit prefixes s, s+d, .., s+(n-1)*d *)
(*         and rank r (1..40) of the remaining 39 bits;                    *)
(*   pf    [s, d, n, r]: hashes for buckets s, s+1, .., s+n-1 (d = 1) with *)
(*         rank r, at a fixed precision.                                   *)
(* A single hash is a run with n = 1.  RunsCheck.tla validates this module *)
(* against the pointwise definitions.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, HLLBits

PP   == 25         \* prefix bits of the small form
Base == 128        \* 7 payload bits per encoded byte; also the flag shift
Buckets(p)   == 2^p
BytesLimit(p) == (4 * Buckets(p)) \div 5      \* size of the register form
Span(p)      == 2^(PP - p)                    \* prefixes per bucket

MaxN(a, b) == IF a > b THEN a ELSE b

----------------------------------------------------------------------------
\* Entries of the small form: pairs <<hi, lo>> for the number hi * 128 + lo.

Flagged(p, pre) == pre % Span(p) = 0
Entry(p, pre, r) == IF Flagged(p, pre) THEN <<pre, 2 * r + 1>>
                    ELSE <<(2 * pre) \div Base, (2 * pre) % Base>>

EntryLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Norm(hi, lo) == <<hi + lo \div Base, lo % Base>>

RECURSIVE DigitLen(_)
DigitLen(x) == IF x < Base THEN 1 ELSE 1 + DigitLen(x \div Base)

PairLen(c) == IF c[1] = 0 THEN 1 ELSE 1 + DigitLen(c[1])
\* encoded length of the difference b - a, for b >= a
DeltaLen(a, b) == LET borrow == IF b[2] < a[2] THEN 1 ELSE 0
                  IN  PairLen(<<b[1] - a[1] - borrow, 0>>)

\* Runs of entries: first entry f, step t, n entries, last entry l.
UniformRun(p, a) ==
    \/ a.n = 1
    \/ a.s % Span(p) = 0 /\ a.d % Span(p) = 0
    \/ a.s % Span(p) # 0 /\ a.d % Span(p) = 0
    \/ a.s % Span(p) # 0 /\ a.s \div Span(p) = (a.s + (a.n - 1) * a.d) \div Span(p)

EntryRun(p, a) ==
    LET flag == Flagged(p, a.s)
        f == Entry(p, a.s, a.r)
        t == IF a.n = 1 THEN <<0, 1>>
             ELSE IF flag THEN <<a.d, 0>>
             ELSE <<(2 * a.d) \div Base, (2 * a.d) % Base>>
    IN  [f |-> f, t |-> t, n |-> a.n,
         l |-> Norm(f[1] + (a.n - 1) * t[1], f[2] + (a.n - 1) * t[2])]

EntryRuns(p, atoms) ==
    {IF Assert(UniformRun(p, a), <<"run mixes entry kinds", p, a>>)
     THEN EntryRun(p, a) ELSE {} : a \in atoms}

RunLen(e) == (e.n - 1) * PairLen(e.t)        \* bytes after its first entry

RunSeq(es) == SetToSortSeq(es, LAMBDA a, b : EntryLess(a.f, b.f))
Disjoint(seq) == \A i \in 1..(Len(seq) - 1) : EntryLess(seq[i].l, seq[i + 1].f)

\* the entries of a run, as a set of pairs
Points(e) == {Norm(e.f[1] + i * e.t[1], e.f[2] + i * e.t[2]) : i \in 0..(e.n - 1)}
PointSeq(es) == SetToSortSeq(UNION {Points(e) : e \in es}, EntryLess)

TotalN(es) == FoldSet(LAMBDA e, acc : acc + e.n, 0, es)

SeqBytes(seq) ==        \* of a sequence of disjoint, ordered runs
    FoldLeftDomain(LAMBDA acc, i :
        acc + DeltaLen(IF i = 1 THEN <<0, 0>> ELSE seq[i - 1].l, seq[i].f) + RunLen(seq[i]),
        0, seq)

\* Some disjoint runs among the given ones, in order: a lower bound for all.
DisjointPart(seq) ==
    FoldLeft(LAMBDA acc, e : IF acc = <<>> \/ EntryLess(acc[Len(acc)].l, e.f)
                             THEN Append(acc, e) ELSE acc, <<>>, seq)

\* Single entries amid long runs: the runs are cut there.
Nth(e, i) == Norm(e.f[1] + i * e.t[1], e.f[2] + i * e.t[2])
\* the last i with Nth(e, i) <= c, for e.f <= c <= e.l
Index(e, c) ==
    IF e.t[2] = 0 THEN (c[1] - e.f[1] - (IF c[2] < e.f[2] THEN 1 ELSE 0)) \div e.t[1]
    ELSE ((c[1] - e.f[1]) * Base + c[2] - e.f[2]) \div (e.t[1] * Base + e.t[2])
Within(e, c) == ~EntryLess(c, e.f) /\ ~EntryLess(e.l, c)
On(e, c) == Within(e, c) /\ Nth(e, Index(e, c)) = c
Pieces(e, cs) ==
    LET cuts == SetToSortSeq({0, e.n} \cup {Index(e, c) + 1 : c \in {x \in cs : Within(e, x)}}, <)
    IN  {[f |-> Nth(e, cuts[i]), t |-> e.t, n |-> cuts[i + 1] - cuts[i],
          l |-> Nth(e, cuts[i + 1] - 1)] : i \in 1..(Len(cuts) - 1)}
CutRuns(es) ==
    LET long   == {e \in es : e.n > 1}
        single == {e \in es : e.n = 1 /\ \A r \in long : ~On(r, e.f)}
    IN  single \cup UNION {Pieces(r, {e.f : e \in single}) : r \in long}

\* <<number of distinct entries, encoded bytes>> of a set of hashes.  When one
\* part alone exceeds the limit the exact figures do not matter (more entries
\* never encode shorter, see RunsCheck): <<0, limit + 1>> stands for "too big".
SmallForm(p, atoms) ==
    LET es  == EntryRuns(p, atoms)
        seq == RunSeq(es)
    IN  IF \E e \in es : RunLen(e) + 1 > BytesLimit(p)
        THEN <<0, BytesLimit(p) + 1>>
        ELSE IF Disjoint(seq)
        THEN <<TotalN(es), SeqBytes(seq)>>
        ELSE IF SeqBytes(DisjointPart(seq)) > BytesLimit(p)
        THEN <<0, BytesLimit(p) + 1>>
        ELSE IF LET cs == RunSeq(CutRuns(es)) IN Disjoint(cs)
        THEN LET c == CutRuns(es) IN <<TotalN(c), SeqBytes(RunSeq(c))>>
        ELSE IF Assert(TotalN(es) <= 6000, <<"overlapping runs too large", p>>)
        THEN LET ps  == PointSeq(es)
             IN  <<Len(ps), SeqBytes([i \in 1..Len(ps) |->
                                [f |-> ps[i], t |-> <<0, 1>>, n |-> 1, l |-> ps[i]]])>>
        ELSE <<0, 0>>

----------------------------------------------------------------------------
\* The large form, as cells <<number of buckets, rank>>.

\* rank that prefix pre and remaining rank r contribute at precision p
RankOf(p, pre, r) ==
    LET dif == pre % Span(p) IN
    IF dif = 0 THEN (PP - p) + r ELSE 1 + LeadZeros(dif, PP - p)

Interval(p, a) ==
    IF a.n = 1 \/ a.s \div Span(p) = (a.s + (a.n - 1) * a.d) \div Span(p)
    THEN [lo |-> a.s \div Span(p), hi |-> a.s \div Span(p) + 1, rk |-> RankOf(p, a.s, a.r)]
    ELSE IF Assert(a.d = Span(p), <<"run is not an interval of buckets", p, a>>)
    THEN [lo |-> a.s \div Span(p), hi |-> a.s \div Span(p) + a.n, rk |-> RankOf(p, a.s, a.r)]
    ELSE [lo |-> 0, hi |-> 0, rk |-> 0]

PFInterval(a) == [lo |-> a.s, hi |-> a.s + a.n, rk |-> a.r]

\* Overlay of intervals: in every bucket the highest rank counts, 0 if none.
Cells(m, ivs) ==
    LET cuts == SetToSortSeq({0, m} \cup {v.lo : v \in ivs} \cup {v.hi : v \in ivs}, <)
    IN  [i \in 1..(Len(cuts) - 1) |->
           LET cover == {v \in ivs : v.lo <= cuts[i] /\ cuts[i] < v.hi}
           IN  <<cuts[i + 1] - cuts[i],
                 FoldSet(LAMBDA v, acc : MaxN(v.rk, acc), 0, cover)>>]

PlusCells(p, atoms) == Cells(Buckets(p), {Interval(p, a) : a \in atoms})
PFCells(p, atoms)   == Cells(Buckets(p), {PFInterval(a) : a \in atoms})

ZeroCells(cells) == FoldLeft(LAMBDA acc, c : IF c[2] = 0 THEN acc + c[1] ELSE acc, 0, cells)

----------------------------------------------------------------------------
\* Runs from logged atoms: a run, or a single hash given by its limbs.
PlusAtom(x) == IF x.t = "h" THEN [s |-> PlusPrefix(x.w), d |-> 1, n |-> 1, r |-> PlusRest(x.w)]
               ELSE [s |-> x.s, d |-> x.d, n |-> x.n, r |-> x.r]
PFAtom(x, p) == IF x.t = "h" THEN [s |-> PFBucket(x.w, p), d |-> 1, n |-> 1, r |-> PFRank(x.w, p)]
               ELSE [s |-> x.s, d |-> x.d, n |-> x.n, r |-> x.r]
=============================================================================

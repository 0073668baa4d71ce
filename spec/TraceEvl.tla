------------------------------ MODULE TraceEvl ------------------------------
(***************************************************************************)
(* The evaluation program against SketchSet: its output for an input file  *)
(* is, line by line, the prefix length and the truncated estimate of a     *)
(* sketch that has seen that prefix; what it generates has the number of   *)
(* files, lines and the width asked for; on given cardinalities it makes   *)
(* one line each, with a plausible estimate of that many random hashes.    *)
(***************************************************************************)
EXTENDS Trace

VARIABLES lines,      \* lines of the current output file matched so far
          due         \* an estimate is known that no line has reported yet

evars == <<tr, l, sk, reply, memo, lines, due>>
Same == UNCHANGED <<sk, reply, memo>>
Tr == Traces[tr]

\* The library's side: as in Trace.
EvLib == \/ (TNew \/ TInsert) /\ UNCHANGED <<lines, due>> /\ due = FALSE
         \/ TCount /\ due = FALSE /\ due' = TRUE /\ UNCHANGED lines

\* v is e without its fraction, as an unsigned 64-bit number (up to rounding
\* of e)
Whole(e) == IF FLe(FPow2(64), e) THEN "18446744073709551615" ELSE FTruncStr(e)
Eps == FParse("1e-11")
Truncated(v, e) == v \in {Whole(e), Whole(FMul(e, FAdd(One, Eps))), Whole(FMul(e, FSub(One, Eps)))}

EvLine == /\ Is("line") /\ due
          /\ Ev.n = ToString(lines + 1)
          /\ Ev.v # "bad" /\ Truncated(Ev.v, reply.e)
          /\ lines' = lines + 1 /\ due' = FALSE
          /\ Same /\ Step

EvEof == Is("eof") /\ ~due /\ lines' = 0 /\ UNCHANGED due /\ Same /\ Step

----------------------------------------------------------------------------
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Est(p, base) == "est-p" \o ToString(p) \o "-" \o base

\* the files of an output directory
EvNames ==
    /\ Is("names")
    /\ Len(Ev.got) = Cardinality(RangeOf(Ev.got))
    /\ RangeOf(Ev.got) =
         CASE Ev.what = "hashes" -> {Est(Ev.p, Ev.bases[i]) : i \in 1..Len(Ev.bases)}
           [] Ev.what = "cards"  -> {Est(Ev.p, "cards-s" \o Ev.size \o "-r" \o ToString(r) \o ".dat")
                                       : r \in 0..(Ev.runs - 1)}
           [] Ev.what = "gen"    -> {"hashes-s" \o Ev.size \o "-r" \o ToString(r) \o ".dat"
                                       : r \in 0..(Ev.runs - 1)}
    /\ UNCHANGED <<lines, due>> /\ Same /\ Step

\* a generated file: values as limbs (<<>> for what is no decimal number)
EvGen ==
    /\ Is("gen")
    /\ Len(Ev.x) = Ev.count
    /\ \A i \in 1..Len(Ev.x) : /\ Len(Ev.x[i]) = 4
                               /\ Ev.size = "32" => Ev.x[i][1] = 0 /\ Ev.x[i][2] = 0
    \* the full width is used (fails by chance once in 2^count)
    /\ Ev.count >= 60 => \E i \in 1..Len(Ev.x) :
          Ev.x[i][IF Ev.size = "32" THEN 3 ELSE 1] >= 32768
    /\ Ev.count >= 60 => Cardinality(RangeOf(Ev.x)) > Ev.count \div 2
    /\ UNCHANGED <<lines, due>> /\ Same /\ Step

\* how far an estimate of c random hashes may be off: far beyond the
\* standard deviation
Slop(kind, p, c) ==
    IF kind = "hllp" /\ 5 * c <= BytesLimit(p)
    THEN FAdd(FInt(2), FDiv(FInt(c), FInt(500)))
    ELSE FAdd(FInt(5), FDiv(FMul(FInt(12), FInt(c)), FSqrt(FInt(Buckets(p)))))

\* lines for given cardinalities, normally in increasing order; a smaller one
\* finds more elements inserted already
MaxTo(c, i) == CHOOSE x \in {c[j] : j \in 1..i} : \A j \in 1..i : c[j] <= x
EvCard ==
    /\ Is("card")
    /\ Len(Ev.got) = Len(Ev.cards)
    /\ \A i \in 1..Len(Ev.cards) :
         LET c == MaxTo(Ev.cards, i)
             v == FParse(Ev.got[i].v)
         IN  /\ Ev.got[i].n = ToString(c)
             /\ Ev.got[i].v # "bad"
             /\ IF c = 0 THEN Ev.got[i].v = "0"
                ELSE FLe(FAbs(FSub(v, F(c))), Slop(Ev.type, Ev.p, c))
    /\ UNCHANGED <<lines, due>> /\ Same /\ Step

EDone == Done /\ UNCHANGED <<lines, due>>

EInit == Init /\ lines = 0 /\ due = FALSE
ENext == EvLib \/ EvLine \/ EvEof \/ EvNames \/ EvGen \/ EvCard \/ EDone
=============================================================================

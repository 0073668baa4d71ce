---------------------------- MODULE TraceAccuracy ----------------------------
(***************************************************************************)
(* Accuracy on uniform hashes.  Each recorded event sums, over a number of *)
(* independent sketches, the relative errors (and their squares) of the    *)
(* estimates at one cardinality n.  The behaviour accumulates them; at its *)
(* end the mean and the root mean square must be within the bounds.        *)
(* With s = 1.04 / sqrt(m) and K sketches:                                 *)
(*   HyperLogLog++, surely in the small form: rms below 0.02%              *)
(*   HyperLogLog++ otherwise: rms at most 1.05 s, mean within 0.2 s + 0.13%*)
(*   HyperLogLog: rms at most 1.05 s, mean within 0.2 s; from m to 5m      *)
(*     elements, where the plain estimator is biased, 3% more of both      *)
(* plus what sampling K of them adds: s/sqrt(K) each five times, and the   *)
(* few collisions (of weight 1/n) that must be allowed for small n.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, HLLEstimate

CONSTANT TraceFile

VARIABLES tr, l, sums     \* sums: n |-> <<runs, sum, sum of squares>>

Traces == TLCEval(ndJsonDeserialize(TraceFile))
Ev == Traces[tr].ev[l]
Is(op) == l <= Len(Traces[tr].ev) /\ Ev.op = op
Step == tr' = tr /\ l' = l + 1

TAcc == /\ Is("acc") /\ Ev.ok
        /\ sums' = IF Ev.n \in DOMAIN sums
                   THEN [sums EXCEPT ![Ev.n] = <<@[1] + Ev.runs, FAdd(@[2], Ev.sum), FAdd(@[3], Ev.sq)>>]
                   ELSE (Ev.n :> <<Ev.runs, Ev.sum, Ev.sq>>) @@ sums
        /\ Step

Num(s) == FParse(s)
StdErr(p) == FDiv(Num("1.04"), FSqrt(F(Buckets(p))))

\* In the small form for sure: five bytes for every entry fit.
Small(kind, p, n) == kind = "plus" /\ 5 * n <= BytesLimit(p)
Biased(kind, p, n) == kind = "pf" /\ Buckets(p) <= n /\ n <= 5 * Buckets(p)

Extra(kind, p, n) == IF Biased(kind, p, n) THEN Num("0.03") ELSE Zero
Granular(n, K) == FDiv(FSqrt(FDiv(F(4), F(K))), F(n))

RmsBound(kind, p, n, K) ==
    IF Small(kind, p, n) THEN FAdd(Num("0.0002"), Granular(n, K))
    ELSE FAdd(FAdd(FMul(FMul(Num("1.05"), StdErr(p)),
                        FAdd(One, FDiv(F(5), FSqrt(F(2 * K))))),
                   Extra(kind, p, n)), Granular(n, K))

MeanBound(kind, p, n, K) ==
    IF Small(kind, p, n) THEN FAdd(Num("0.0002"), Granular(n, K))
    ELSE FAdd(FAdd(FAdd(FMul(Num("0.2"), StdErr(p)),
                        FMul(F(5), FDiv(StdErr(p), FSqrt(F(K))))),
                   IF kind = "plus" THEN Num("0.0013") ELSE Extra(kind, p, n)), Granular(n, K))

Accurate(kind, p, n, a) ==
    LET K == a[1]
    IN  /\ FFinite(a[2]) /\ FFinite(a[3])
        /\ FLe(FSqrt(FDiv(a[3], F(K))), RmsBound(kind, p, n, K))
        /\ FLe(FAbs(FDiv(a[2], F(K))), MeanBound(kind, p, n, K))

\* The last event of a behaviour: every cardinality is judged.
TJudge == /\ Is("judge")
          /\ Ev.n \in DOMAIN sums
          /\ Accurate(Ev.kind, Ev.p, Ev.n, sums[Ev.n])
          /\ UNCHANGED sums /\ Step

Done == l > Len(Traces[tr].ev) /\ UNCHANGED <<tr, l, sums>>

Init == tr \in 1..Len(Traces) /\ l = 1 /\ sums = <<>>
Next == TAcc \/ TJudge \/ Done
View == <<tr, l>>
=============================================================================

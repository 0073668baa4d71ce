------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: executions of the real crate, recorded through its    *)
(* public API, must be behaviours of SketchSet.  Every scenario in         *)
(* TraceFile is one behaviour (one initial state each).  An event that no  *)
(* action explains leaves its behaviour without a successor: TLC reports a *)
(* deadlock there, and that is a conformance violation.                    *)
(*                                                                         *)
(* Checks selects what the recorded values are held against:               *)
(*   "memo"  the estimate is some function of kind, precision, seen        *)
(*   "est"   the estimate is the published estimator's for seen            *)
(*   "fine"  as memo, nearly to rounding (where the estimate is not a        *)
(*           difference of nearly equal numbers)                           *)
(*   "sane"  the estimate is finite, >= 0, and 0 exactly when seen = {}    *)
(*   "size"  the saved form is within the bound for kind and precision     *)
(*   "mem"   so are the heap bytes it holds                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, HLLEstimate

CONSTANTS TraceFile, Checks

VARIABLES tr, l,        \* scenario, position in it
          sk, reply,    \* SketchSet's variables
          memo          \* estimates seen so far, by <<kind, p, seen>>

Traces == TLCEval(ndJsonDeserialize(TraceFile))

PrecSupported(kind, p) == p \in 4..(IF kind = "plus" THEN 18 ELSE 16)
AnyEstimate(kind, p, s, e) == TRUE

S == INSTANCE SketchSet WITH PrecOK <- PrecSupported, EstOK <- AnyEstimate

Ev == Traces[tr].ev[l]
Is(op) == l <= Len(Traces[tr].ev) /\ Ev.op = op
Step == tr' = tr /\ l' = l + 1

Atoms(k) == {Traces[tr].atoms[i] : i \in sk[k].seen}

Concrete(k, e) ==
    IF sk[k].kind = "plus"
    THEN PlusEstOK(sk[k].p, {PlusAtom(x) : x \in Atoms(k)}, e)
    ELSE PFEstOK(sk[k].p, {PFAtom(x, sk[k].p) : x \in Atoms(k)}, e)

Sane(k, e) ==
    /\ FFinite(e) /\ FLe(Zero, e)
    /\ (sk[k].seen = {}) <=> FLe(e, Zero)

\* |a - b| <= 10^-d (|a| + |b| + t): the sums of HyperLogLog are exact, those
\* of HyperLogLog++ depend on their order; a logarithm of m/zeros taken as a
\* difference is still within
Fine(k, a, b) ==
    LET pf == sk[k].kind = "pf"
    IN  FLt(a, FPow2(27)) =>
          FClose(a, b, IF pf THEN 13 ELSE 11, FDiv(FInt(Buckets(sk[k].p)), FInt(IF pf THEN 1 ELSE 100)))

Key(k) == <<sk[k].kind, sk[k].p, sk[k].seen>>

CountMatches(k, e) ==
    /\ "est"  \in Checks => Concrete(k, e)
    /\ "sane" \in Checks => Sane(k, e)
    /\ "memo" \in Checks /\ Key(k) \in DOMAIN memo => FClose(e, memo[Key(k)], 9, Zero)
    /\ "fine" \in Checks /\ Key(k) \in DOMAIN memo => Fine(k, e, memo[Key(k)])

Remember(k, e) ==
    memo' = IF "memo" \in Checks /\ Key(k) \notin DOMAIN memo
            THEN (Key(k) :> e) @@ memo ELSE memo

\* Bytes a saved sketch may take: its registers, the pending entries of the
\* small form (1% of that size in number), and a constant.
Slack == 160
MaxSize(kind, p) ==
    IF kind = "plus"
    THEN 4 * ((Buckets(p) + 4) \div 5) + 4 * (BytesLimit(p) \div 100) + Slack
    ELSE 4 * ((Buckets(p) + 5) \div 6) + Slack

TNew == /\ Is("new")
        /\ \/ Ev.r = "ok" /\ S!New(Ev.k, Ev.kind, Ev.p)
           \/ Ev.r = "InvalidPrecision" /\ S!NewRefused(Ev.kind, Ev.p)
        /\ UNCHANGED memo /\ Step

TInsert == Is("ins") /\ S!Insert(Ev.k, {Ev.x[i] : i \in 1..Len(Ev.x)}) /\ UNCHANGED memo /\ Step

TCount == /\ Is("cnt") /\ S!Count(Ev.k, Ev.e)
          /\ CountMatches(Ev.k, Ev.e) /\ Remember(Ev.k, Ev.e) /\ Step

TMerge == /\ Is("mrg")
          /\ \/ Ev.r = "ok" /\ S!Merge(Ev.a, Ev.b)
             \/ Ev.r = "IncompatiblePrecision" /\ S!MergeRefused(Ev.a, Ev.b)
          /\ UNCHANGED memo /\ Step

TCopy == Is("cpy") /\ Ev.r = "ok" /\ S!Copy(Ev.a, Ev.b) /\ UNCHANGED memo /\ Step

TFail == Is("fail") /\ Ev.r = "failed" /\ S!Fail(Ev.k) /\ UNCHANGED memo /\ Step

TSize == /\ Is("siz")
         /\ "size" \in Checks => Ev.n <= MaxSize(sk[Ev.k].kind, sk[Ev.k].p)
         /\ UNCHANGED <<sk, reply, memo>> /\ Step

\* Heap bytes held: the registers, the list and the pending set, each with
\* the spare room growing containers leave.
MaxMem(kind, p) ==
    8192 + IF kind = "plus" THEN 24 * 4 * (Buckets(p) \div 5 + 1) ELSE 6 * 4 * (Buckets(p) \div 6 + 1)

TMem == /\ Is("mem")
        /\ "mem" \in Checks => Ev.n <= MaxMem(sk[Ev.k].kind, sk[Ev.k].p)
        /\ UNCHANGED <<sk, reply, memo>> /\ Step

Done == l > Len(Traces[tr].ev) /\ UNCHANGED <<tr, l, sk, reply, memo>>

Init == tr \in 1..Len(Traces) /\ l = 1 /\ S!Init /\ memo = <<>>
Next == TNew \/ TInsert \/ TCount \/ TMerge \/ TCopy \/ TFail \/ TSize \/ TMem \/ Done

View == <<tr, l>>
=============================================================================

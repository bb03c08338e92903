------------------------------ MODULE NdBase ------------------------------
(***************************************************************************)
(* Vocabulary shared by every module of the specification of ocxtal/nd.     *)
(* A byte stream is a sequence of 0..255; offsets are 0-origin; a slice is  *)
(* a pair <<start, end>> (half-open).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Clamp(x, lo, hi) == Max2(lo, Min2(x, hi))
CeilDiv(a, b) == (a + b - 1) \div b

Rep(x, n) == [i \in 1..n |-> x]

\* bytes [a, b) of s
Sub(s, a, b) == SubSeq(s, a + 1, b)

\* concatenation of a sequence of sequences (balanced, so that the cost is n log n)
RECURSIVE FlatR(_, _, _)
FlatR(ss, a, b) ==
    IF a > b THEN <<>>
    ELSE IF a = b THEN ss[a]
    ELSE LET m == (a + b) \div 2 IN FlatR(ss, a, m) \o FlatR(ss, m + 1, b)
Flat(ss) == FlatR(ss, 1, Len(ss))

SegLT(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

\* merge sort of slices by (start, end)
MergeSegs(a, b) ==
    IF a = <<>> THEN b
    ELSE IF b = <<>> THEN a
    ELSE IF ~SegLT(b[1], a[Len(a)]) THEN a \o b
    ELSE FoldLeft(LAMBDA acc, k :
            IF acc.i > Len(a) \/ (acc.j <= Len(b) /\ SegLT(b[acc.j], a[acc.i]))
            THEN [i |-> acc.i, j |-> acc.j + 1, out |-> Append(acc.out, b[acc.j])]
            ELSE [i |-> acc.i + 1, j |-> acc.j, out |-> Append(acc.out, a[acc.i])],
            [i |-> 1, j |-> 1, out |-> <<>>], [k \in 1..(Len(a) + Len(b)) |-> k]).out

SegsSorted(s) == \A i \in 1..(Len(s) - 1) : ~SegLT(s[i + 1], s[i])

RECURSIVE SortR(_, _, _)
SortR(s, a, b) ==
    IF a > b THEN <<>>
    ELSE IF a = b THEN <<s[a]>>
    ELSE LET m == (a + b) \div 2 IN MergeSegs(SortR(s, a, m), SortR(s, m + 1, b))
SortSegs(s) == IF SegsSorted(s) THEN s ELSE SortR(s, 1, Len(s))

\* drops repeated neighbours
Dedup(s) == LET keep == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i = 1 \/ s[i] # s[i - 1])
            IN [i \in 1..Len(keep) |-> s[keep[i]]]

(***************************************************************************)
(* Range expressions "S..E".  A bound is an anchor ("s": start, "e": end)   *)
(* and a displacement.                                                      *)
(***************************************************************************)
Bound(anchor, off, s, e) == (IF anchor = "s" THEN s ELSE e) + off

\* the slice that range expression r maps the interval [s, e) to, clipped to [0, len)
MapRange(r, s, e, len) ==
    << Clamp(Bound(r.sa, r.so, s, e), 0, len), Clamp(Bound(r.ea, r.eo, s, e), 0, len) >>

NonEmpty(g) == g[1] < g[2]
===========================================================================

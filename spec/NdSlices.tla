------------------------------ MODULE NdSlices ------------------------------
(***************************************************************************)
(* Stages 3 and 4: slices on a stream s of length n.                        *)
(***************************************************************************)
EXTENDS NdBytes

\* --width N,S..E : the k-th window [kN, kN + N) for every window that holds at least one byte, mapped and clipped
WidthSpan(w, r) == Bound(r.ea, r.eo, 0, w) - Bound(r.sa, r.so, 0, w)
WidthSegs(n, w, r) ==
    SelectSeq([k \in 1..CeilDiv(n, w) |-> MapRange(r, (k - 1) * w, k * w, n)], NonEmpty)

\* --find: leftmost, non-overlapping occurrences
FindR(pat, hits) ==      \* hits: all match positions, ascending
    FoldLeft(LAMBDA acc, h :
        IF h < acc.from THEN acc ELSE [from |-> h + Len(pat), out |-> Append(acc.out, <<h, h + Len(pat)>>)],
        [from |-> 0, out |-> <<>>], hits).out
FindSegs(s, pat) ==
    IF pat = <<>> THEN <<>>
    ELSE LET m == Len(pat)
             pos == [i \in 1..Max2(0, Len(s) - m + 1) |-> i - 1]
             hits == SelectSeq(pos, LAMBDA p : s[p + 1] = pat[1] /\ \A j \in 1..m : s[p + j] = pat[j])
         IN FindR(pat, hits)

\* --slice: the non-empty ranges, sorted by (start, end)
SliceSegs(n, ranges) ==
    Dedup(SortSegs(SelectSeq([k \in 1..Len(ranges) |-> MapRange(ranges[k], 0, n, n)], NonEmpty)))

\* --guide: the records' intervals clipped to the stream; a record that starts at or beyond the end has no slice
GuideSegs(n, recs) ==
    LET in == SelectSeq(recs, LAMBDA r : r.off < n)
    IN [k \in 1..Len(in) |-> <<in[k].off, Min2(in[k].off + in[k].len, n)>>]

\* little-endian signed element of w bytes at position p (a value beyond 31 bits is saturated); 0 beyond the end
RECURSIVE LE(_, _, _)
LE(s, p, w) ==
    IF w = 0 THEN 0
    ELSE LE(s, p + 1, w - 1) * 256 + s[p + 1]
\* only for w <= 3 is the arithmetic exact in TLC; wider elements are used with small values by the generator
Elem(s, p, w) ==
    IF p + w > Len(s) THEN 0
    ELSE IF w = 1 THEN (IF s[p + 1] > 127 THEN s[p + 1] - 256 ELSE s[p + 1])
    ELSE IF w = 2 THEN (LET v == LE(s, p, 2) IN IF v > 32767 THEN v - 65536 ELSE v)
    ELSE LET lo == LE(s, p, 3)  hi == s[p + 4] IN
         IF s[p + w] > 127
         THEN (IF \A j \in 4..w : s[p + j] = 255 THEN lo - 16777216 ELSE 0 - BIG)
         ELSE (IF \A j \in 4..w : s[p + j] = 0 THEN lo ELSE BIG)

\* --walk: every expression is a linear form c + sum of k * elem(w, i); evaluated at the current position
RECURSIVE SumTerms(_, _, _, _)
SumTerms(s, p, terms, i) ==
    IF i > Len(terms) THEN 0
    ELSE LET t == terms[i] IN t.k * Elem(s, p + t.i * t.w, t.w) + SumTerms(s, p, terms, i + 1)
WalkSpan(s, p, e) == e.c + SumTerms(s, p, e.terms, 1)

\* result: [ok, segs]; not ok when a length is not positive
WalkStep(s, p, exprs) ==        \* [ok, segs, next] at p
    LET spans == TLCEval([i \in 1..Len(exprs) |-> WalkSpan(s, p, exprs[i])]) IN
    IF \E i \in 1..Len(spans) : spans[i] <= 0 THEN [ok |-> FALSE, segs |-> <<>>, next |-> p]
    ELSE LET starts == [i \in 1..Len(spans) |-> p + FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(spans, 1, i - 1))]
         IN [ok |-> TRUE, next |-> p + FoldLeft(LAMBDA a, b : a + b, 0, spans),
             segs |-> SelectSeq([i \in 1..Len(spans) |-> <<Min2(starts[i], Len(s)), Min2(starts[i] + spans[i], Len(s))>>], NonEmpty)]
WalkSegs(s, exprs) ==
    LET w == FoldLeft(LAMBDA acc, k :
                 IF acc.p >= Len(s) \/ ~acc.ok THEN acc
                 ELSE LET x == WalkStep(s, acc.p, exprs) IN [p |-> x.next, ok |-> x.ok, segs |-> acc.segs \o x.segs],
                 [p |-> 0, ok |-> TRUE, segs |-> <<>>], [k \in 1..Len(s) |-> k])
    IN [ok |-> w.ok, segs |-> IF w.ok THEN w.segs ELSE <<>>]

---------------------------------------------------------------------------
(* --regex.  The specified fragment: an alternation of concatenations of atoms [k, set, lo, hi, greedy], matched    *)
(* leftmost-first (backtracking order), matches not overlapping.  k is the kind of the atom:                        *)
(*   0 a byte of set        1 a scalar in UTF-8, single bytes only those of set (the rest of the bytes has no match) *)
(*   2 \A  3 \z  4 (?m)^  5 (?m)$  6 \b  7 \B (of ASCII): the slice is considered on its own, its start and its end  *)
(*   are those of the haystack                                                                                       *)

\* the length of the scalar encoded at s[p + 1..e], or 0
Utf8Len(s, p, e) ==
    LET B(i) == IF p + i < e THEN s[p + i + 1] ELSE -1
        C(i) == B(i) >= 128 /\ B(i) <= 191
        h == B(0)
    IN IF h < 0 THEN 0
       ELSE IF h <= 127 THEN 1
       ELSE IF h >= 194 /\ h <= 223 THEN (IF C(1) THEN 2 ELSE 0)
       ELSE IF h >= 224 /\ h <= 239 THEN (IF C(1) /\ C(2) /\ (h = 224 => B(1) >= 160) /\ (h = 237 => B(1) <= 159) THEN 3 ELSE 0)
       ELSE IF h >= 240 /\ h <= 244 THEN (IF C(1) /\ C(2) /\ C(3) /\ (h = 240 => B(1) >= 144) /\ (h = 244 => B(1) <= 143) THEN 4 ELSE 0)
       ELSE 0
IsWord(x) == (x >= 48 /\ x <= 57) \/ (x >= 65 /\ x <= 90) \/ x = 95 \/ (x >= 97 /\ x <= 122)
Boundary(s, b, e, p) == (p > b /\ IsWord(s[p])) # (p < e /\ IsWord(s[p + 1]))
\* the number of bytes the atom takes at p of the slice s[b + 1..e], or -1
AtomLen(s, b, e, a, p) ==
    CASE a.k = 0 -> IF p < e /\ s[p + 1] \in a.set THEN 1 ELSE -1
      [] a.k = 1 -> LET n == Utf8Len(s, p, e) IN IF n = 0 THEN -1 ELSE IF n > 1 \/ s[p + 1] \in a.set THEN n ELSE -1
      [] a.k = 2 -> IF p = b THEN 0 ELSE -1
      [] a.k = 3 -> IF p = e THEN 0 ELSE -1
      [] a.k = 4 -> IF p = b THEN 0 ELSE IF s[p] = 10 THEN 0 ELSE -1
      [] a.k = 5 -> IF p = e THEN 0 ELSE IF s[p + 1] = 10 THEN 0 ELSE -1
      [] a.k = 6 -> IF Boundary(s, b, e, p) THEN 0 ELSE -1
      [] OTHER   -> IF Boundary(s, b, e, p) THEN -1 ELSE 0

\* Rows: for every position p of the slice (p = b..e at index p - b + 1) the end of the match that the backtracking order
\* prefers, or -1.  What an atom does at p depends on the row of what follows it only.
Prefer(a, more, stop) == IF a.greedy THEN (IF more >= 0 THEN more ELSE stop) ELSE (IF stop >= 0 THEN stop ELSE more)
\* the row of `a' repeated once more before `row' (if it need not be: or what is behind it)
Once(b, lens, a, must, row, behind) ==
    TLCEval([i \in 1..Len(lens) |->
        Prefer(a, IF lens[i] >= 0 THEN row[i + lens[i]] ELSE -1, IF must THEN -1 ELSE behind[i])])
RECURSIVE Times(_, _, _, _, _, _)
Times(b, lens, a, cnt, row, behind) ==      \* the row before the repetitions 1..cnt
    IF cnt = 0 THEN row ELSE Times(b, lens, a, cnt - 1, Once(b, lens, a, cnt <= a.lo, row, behind), behind)
AtomRow(s, b, e, a, behind) ==
    LET lens == TLCEval([i \in 1..(e - b + 1) |-> AtomLen(s, b, e, a, b + i - 1)])
        \* any number of times
        star == FoldRight(LAMBDA i, acc :
                    \* acc: the row of the positions to the right of i
                    <<Prefer(a, IF lens[i] > 0 THEN acc[lens[i]] ELSE -1, behind[i])>> \o acc,
                    [i \in 1..Len(lens) |-> i], <<>>)
    IN IF a.hi < 9999 THEN Times(b, lens, a, a.hi, behind, behind)
       ELSE Times(b, lens, a, a.lo, TLCEval(star), behind)
RECURSIVE AltRow(_, _, _, _, _, _)
AltRow(s, b, e, atoms, k, row) == IF k = 0 THEN row ELSE AltRow(s, b, e, atoms, k - 1, AtomRow(s, b, e, atoms[k], row))
\* the first alternative that matches
SliceRow(s, b, e, alts) ==
    LET rows == TLCEval([j \in 1..Len(alts) |-> AltRow(s, b, e, alts[j], Len(alts[j]), [i \in 1..(e - b + 1) |-> b + i - 1])])
    IN TLCEval([i \in 1..(e - b + 1) |->
           LET m == {j \in 1..Len(rows) : rows[j][i] >= 0} IN IF m = {} THEN -1 ELSE rows[CHOOSE j \in m : \A k \in m : j <= k][i]])

\* from left to right; an empty match is not reported right behind another match
RegexIn(s, alts, b, e) ==
    LET row == SliceRow(s, b, e, alts) IN
    FoldLeft(LAMBDA acc, i :
        LET p == b + i - 1  m == row[i] IN
        IF p < acc.from \/ m < 0 \/ (m = p /\ p = acc.last) THEN acc
        ELSE [from |-> IF m > p THEN m ELSE p + 1, last |-> m, out |-> Append(acc.out, <<p, m>>)],
        [from |-> b, last |-> -1, out |-> <<>>], [i \in 1..(e - b + 1) |-> i]).out
\* the matches in every slice (an empty match at the end of the stream has no place)
RegexSegs(s, segs, alts) ==
    LET al == TLCEval([i \in 1..Len(alts) |-> [j \in 1..Len(alts[i]) |->
                [alts[i][j] EXCEPT !.set = {alts[i][j].set[x] : x \in 1..Len(alts[i][j].set)}]]])
    IN SelectSeq(SortSegs(Flat([k \in 1..Len(segs) |-> RegexIn(s, al, segs[k][1], segs[k][2])])),
                 LAMBDA g : g[1] < Len(s))

---------------------------------------------------------------------------
MapAll(n, segs, ranges) ==
    SortSegs(SelectSeq(
        [j \in 1..(Len(segs) * Len(ranges)) |->
            LET g == segs[(j - 1) \div Len(ranges) + 1]  r == ranges[((j - 1) % Len(ranges)) + 1]
            IN MapRange(r, g[1], g[2], n)], NonEmpty))

\* the maximal intervals of [0, n) not covered by any slice (segs sorted)
Gaps(n, segs) ==
    LET g == FoldLeft(LAMBDA acc, x :
                 [pos |-> Max2(acc.pos, x[2]), out |-> IF x[1] > acc.pos THEN Append(acc.out, <<acc.pos, x[1]>>) ELSE acc.out],
                 [pos |-> 0, out |-> <<>>], segs)
    IN IF g.pos < n THEN Append(g.out, <<g.pos, n>>) ELSE g.out

\* --invert
InvertSegs(n, segs, ranges) == MapAll(n, Gaps(n, segs), ranges)

\* --extend
ExtendSegs(n, segs, ranges) == MapAll(n, segs, ranges)

\* --merge N: fold of the sorted slices
MergeFold(segs, N) ==
    FoldLeft(LAMBDA acc, g :
        IF acc = <<>> THEN <<g>>
        ELSE LET l == acc[Len(acc)] IN
             IF l[2] + N >= g[1] THEN [acc EXCEPT ![Len(acc)] = <<l[1], Max2(l[2], g[2])>>]
             ELSE Append(acc, g), <<>>, segs)

\* --lines: the slices whose index is in the union of the ranges
LinesSegs(segs, ranges) ==
    LET m == Len(segs)
        rs == [k \in 1..Len(ranges) |-> MapRange(ranges[k], 0, m, m)]
        keep == SelectSeq([i \in 1..m |-> i], LAMBDA i : \E k \in 1..Len(rs) : rs[k][1] < i /\ i <= rs[k][2])
    IN [j \in 1..Len(keep) |-> segs[keep[j]]]
===========================================================================

------------------------------ MODULE NdRope ------------------------------
(***************************************************************************)
(* The byte stages on ropes: a stream of some megabytes is a short sequence *)
(* of pieces <<src, off, len, lit>>, which stand for bytes off..off + len   *)
(* of input src, for len filler bytes (src = 0) or for the bytes lit        *)
(* (src = -1).  Rope.tla checks that the operations refine those of NdBytes.*)
(* The slices of NdSlices depend on the length of the stream only (except   *)
(* for those that look at the data), so that they are used as they are.     *)
(***************************************************************************)
EXTENDS NdPipe

InPiece(i, off, len) == <<i, off, len, <<>>>>
FillPiece(len) == <<0, 0, len, <<>>>>
LitPiece(bytes) == <<-1, 0, Len(bytes), bytes>>

RLen(r) == FoldLeft(LAMBDA a, p : a + p[3], 0, r)

\* bytes [a, b) of the piece
Clip(p, a, b) == <<p[1], p[2] + a, b - a, IF p[1] = -1 THEN Sub(p[4], a, b) ELSE <<>>>>

\* bytes [a, b) of the rope
RSub(r, a, b) ==
    FoldLeft(LAMBDA acc, p :
        LET lo == Max2(a, acc.pos)  hi == Min2(b, acc.pos + p[3]) IN
        [pos |-> acc.pos + p[3], out |-> IF lo < hi THEN Append(acc.out, Clip(p, lo - acc.pos, hi - acc.pos)) ELSE acc.out],
        [pos |-> 0, out |-> <<>>], r).out

RPadTo(r, n) == LET l == RLen(r)  k == CeilDiv(l, n) * n - l IN IF k > 0 THEN Append(r, FillPiece(k)) ELSE r

RCat(ins, n) == Flat([i \in 1..Len(ins) |-> RPadTo(ins[i], n)])
RZip(ins, n) ==
    LET p == TLCEval([i \in 1..Len(ins) |-> RPadTo(ins[i], n)])
        k == Len(ins)
        ws == TLCEval([i \in 1..k |-> RLen(p[i]) \div n])
        words == CHOOSE w \in {ws[i] : i \in 1..k} : \A i \in 1..k : w <= ws[i]
    IN Flat([j \in 1..(words * k) |-> LET w == (j - 1) \div k  i == ((j - 1) % k) + 1 IN RSub(p[i], w * n, w * n + n)])

\* the union of the ranges as disjoint intervals
Union(n, ranges) == MergeFold(SortSegs(SelectSeq([k \in 1..Len(ranges) |-> MapRange(ranges[k], 0, n, n)], NonEmpty)), 0)
RCut(r, ranges) == LET u == Union(RLen(r), ranges) IN Flat([k \in 1..Len(u) |-> RSub(r, u[k][1], u[k][2])])

RPad(r, a, b) == <<FillPiece(a)>> \o r \o <<FillPiece(b)>>

RECURSIVE RApplyR(_, _, _, _, _)
RApplyR(r, n, recs, k, pos) ==
    IF k > Len(recs) THEN <<RSub(r, pos, n)>>
    ELSE LET c == recs[k] IN
         IF c.off > n THEN <<RSub(r, pos, n)>>
         ELSE <<RSub(r, pos, c.off), <<LitPiece(c.arr)>>>> \o RApplyR(r, n, recs, k + 1, Min2(c.off + c.len, n))
RApply(r, recs) == Flat(RApplyR(r, RLen(r), recs, 1, 0))

RECURSIVE RPlaceR(_, _, _)
RPlaceR(recs, k, pos) ==
    IF k > Len(recs) THEN <<>>
    ELSE <<FillPiece(recs[k].off - pos), LitPiece(recs[k].arr)>> \o RPlaceR(recs, k + 1, recs[k].off + recs[k].len)

\* what the rope stands for, given the inputs
RBytes(r, ins, filler) ==
    Flat([k \in 1..Len(r) |-> IF r[k][1] = 0 THEN Rep(filler, r[k][3]) ELSE IF r[k][1] = -1 THEN r[k][4] ELSE Sub(ins[r[k][1]], r[k][2], r[k][2] + r[k][3])])

(***************************************************************************)
(* Command lines: as in NdPipe, except that the inputs are given by their   *)
(* lengths (binary) or as texts (-F x).                                     *)
(***************************************************************************)
RStream2(c) ==
    LET parsed == [i \in 1..Len(c.texts) |-> ParseText(c.texts[i], 16)]
        ins == IF c.infmt = "b" THEN [i \in 1..Len(c.lens) |-> <<InPiece(i, 0, c.lens[i])>>]
               ELSE [i \in 1..Len(parsed) |-> RPlaceR(parsed[i].recs, 1, 0)]
        s1 == IF c.mode = "zip" THEN RZip(ins, c.n) ELSE RCat(ins, c.n)
        s2 == IF c.cut = <<>> THEN s1 ELSE RCut(s1, c.cut[1])
        s3 == IF c.pad = <<>> THEN s2 ELSE RPad(s2, c.pad[1][1], c.pad[1][2])
    IN IF c.patch = <<>> THEN s3 ELSE RApply(s3, ParseText(c.patch[1], 16).recs)

\* slices that do not look at the data
RSlices(c, n) ==
    LET g == c.slicer IN
    Stage4(c, n, <<>>, CASE g.k = "width" -> WidthSegs(n, g.w, g.r)
                [] g.k = "slice" -> SliceSegs(n, g.rs)
                [] g.k = "guide" -> GuideSegs(n, ParseText(g.text, 16).recs)
                [] g.k = "given" -> g.segs)
===========================================================================

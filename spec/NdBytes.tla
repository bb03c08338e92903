------------------------------ MODULE NdBytes ------------------------------
(***************************************************************************)
(* Stages 1 and 2: the byte stream.                                         *)
(***************************************************************************)
EXTENDS NdText

PadTo(s, n, filler) == LET r == CeilDiv(Len(s), n) * n IN s \o Rep(filler, r - Len(s))

\* --cat N
CatInputs(ins, n, filler) == Flat([i \in 1..Len(ins) |-> PadTo(ins[i], n, filler)])

\* --zip N: N bytes of each input in turn, until the shortest input (padded to words) ends
ZipInputs(ins, n, filler) ==
    LET p == [i \in 1..Len(ins) |-> PadTo(ins[i], n, filler)]
        words == CHOOSE w \in {Len(p[i]) \div n : i \in 1..Len(p)} : \A i \in 1..Len(p) : w <= Len(p[i]) \div n
        k == Len(ins)
    IN [j \in 1..(words * n * k) |->
          LET w == (j - 1) \div (n * k)  i == ((j - 1) \div n) % k  o == (j - 1) % n
          IN p[i + 1][w * n + o + 1]]

\* -F x: the arrays are put at their offsets
RECURSIVE PlaceR(_, _, _, _)
PlaceR(recs, k, pos, filler) ==
    IF k > Len(recs) THEN <<>>
    ELSE <<Rep(filler, recs[k].off - pos) \o recs[k].arr>> \o PlaceR(recs, k + 1, recs[k].off + recs[k].len, filler)
Place(recs, filler) == Flat(PlaceR(recs, 1, 0, filler))

\* -F nnx
Gapless(recs) == Flat([k \in 1..Len(recs) |-> recs[k].arr])

\* one input: [ok, s]
ReadInput(fmt, t, filler) ==
    IF fmt = "b" THEN [ok |-> TRUE, s |-> t]
    ELSE LET p == ParseText(t, IF fmt = "d" THEN 10 ELSE 16) IN
         IF ~p.ok THEN Bad
         ELSE IF fmt = "nnx" THEN [ok |-> TRUE, s |-> Gapless(p.recs)]
         ELSE IF Disjoint(p.recs) THEN [ok |-> TRUE, s |-> Place(p.recs, filler)]
         ELSE Bad

\* --cut: the bytes in the union of the ranges
Cut(s, ranges) ==
    LET n == Len(s)
        rs == [k \in 1..Len(ranges) |-> MapRange(ranges[k], 0, n, n)]
        keep == SelectSeq([i \in 1..n |-> i], LAMBDA i : \E k \in 1..Len(rs) : rs[k][1] < i /\ i <= rs[k][2])
    IN [j \in 1..Len(keep) |-> s[keep[j]]]

\* --pad N,M
Pad(s, a, b, filler) == Rep(filler, a) \o s \o Rep(filler, b)

\* --patch: every record replaces [off, off + len) by its array.  What lies beyond the end of the stream has nothing
\* to replace: the array of a record that starts at or before the end is put there, a record that starts beyond the
\* end has no place.
RECURSIVE ApplyR(_, _, _, _)
ApplyR(s, recs, k, pos) ==
    IF k > Len(recs) THEN <<Sub(s, pos, Len(s))>>
    ELSE LET r == recs[k] IN
         IF r.off > Len(s) THEN <<Sub(s, pos, Len(s))>>
         ELSE <<Sub(s, pos, r.off), r.arr>> \o ApplyR(s, recs, k + 1, Min2(r.off + r.len, Len(s)))
ApplyPatch(s, recs) == Flat(ApplyR(s, recs, 1, 0))
===========================================================================

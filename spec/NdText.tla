------------------------------ MODULE NdText ------------------------------
(***************************************************************************)
(* The textual record format "offset length | array | mosaic": how slices   *)
(* are rendered and what a text means when it is read back.                 *)
(***************************************************************************)
EXTENDS NdBase

SP == 32   NL == 10   BAR == 124   DOT == 46

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n

\* n as exactly k lower-case hexadecimal digits
HexN(n, k) ==
    LET RECURSIVE P16(_)
        P16(j) == IF j = 0 THEN 1 ELSE 16 * P16(j - 1)
    IN [i \in 1..k |-> IF k - i > 6 THEN 48 ELSE HexDigit((n \div P16(k - i)) % 16)]

RECURSIVE DecN(_)
DecN(n) == IF n < 10 THEN <<48 + n>> ELSE DecN(n \div 10) \o <<48 + (n % 10)>>

HexByte == [b \in 0..255 |-> <<HexDigit(b \div 16), HexDigit(b % 16), SP>>]

LenDigits(n) == IF n < 65536 THEN 4 ELSE IF n < 16777216 THEN 6 ELSE 8

\* array field: two digits and a space per byte, blank up to `cols' columns
Body(b, cols) == [i \in 1..(3 * Max2(cols, Len(b))) |->
                    LET j == (i + 2) \div 3 IN
                    IF j > Len(b) THEN SP ELSE HexByte[b[j]][i - 3 * (j - 1)]]

Mosaic(b, cols) == [i \in 1..Max2(cols, Len(b)) |->
                      IF i > Len(b) THEN SP
                      ELSE IF b[i] >= 32 /\ b[i] < 127 THEN b[i] ELSE DOT]

RecordX(off, b, cols) ==
    HexN(off, 12) \o <<SP>> \o HexN(Len(b), LenDigits(Len(b))) \o <<SP, BAR, SP>>
    \o Body(b, cols) \o <<BAR, SP>> \o Mosaic(b, cols) \o <<NL>>

RecordD(off, b, cols) ==
    DecN(off) \o <<SP>> \o DecN(Len(b)) \o <<SP, BAR, SP>>
    \o Body(b, cols) \o <<BAR, SP>> \o Mosaic(b, cols) \o <<NL>>

\* fmt: "x" (also "nnx"), "d", "b"
Format(fmt, cols, stream, segs) ==
    Flat([k \in 1..Len(segs) |->
            LET s == segs[k]  b == Sub(stream, s[1], s[2]) IN
            CASE fmt = "b" -> b
              [] fmt = "d" -> RecordD(s[1], b, cols)
              [] OTHER     -> RecordX(s[1], b, cols)])

---------------------------------------------------------------------------
(* Reading.  ParseText(t, radix) is either [ok |-> TRUE, recs |-> sequence of *)
(* [off, len, arr, bar]] or [ok |-> FALSE].                                 *)

IsHex(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IsDec(c) == c >= 48 /\ c <= 57
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

BIG == 100000000    \* values are saturated (TLC integers are 32 bits)

RECURSIVE NumAt(_, _, _, _)
NumAt(t, i, radix, acc) ==
    IF i > Len(t) THEN acc
    ELSE NumAt(t, i + 1, radix, Min2(BIG, radix * acc + HexVal(t[i])))
Num(t, radix) == NumAt(t, 1, radix, 0)

FirstIdx(t, P(_), from) ==      \* smallest i >= from with P(t[i]), Len(t)+1 if none
    LET S == {i \in from..Len(t) : P(t[i])} IN
    IF S = {} THEN Len(t) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j

Bad == [ok |-> FALSE]

\* the array field: groups of two hex digits, each followed by one space (the last space is optional); it ends at the
\* first "|", at the end of the line or at a blank group
ParseArray(f) ==
    LET end == FirstIdx(f, LAMBDA c : c = BAR, 1) - 1
        g   == SubSeq(f, 1, end)
        n   == (Len(g) + 2) \div 3
        grp(j) == SubSeq(g, 3 * j - 2, Min2(3 * j, Len(g)))
        blank == {j \in 1..n : LET x == grp(j) IN Len(x) < 2 \/ (x[1] = SP /\ x[2] = SP)}
        m   == IF blank = {} THEN n ELSE (CHOOSE j \in blank : \A k \in blank : j <= k) - 1
        good == \A j \in 1..m : LET x == grp(j) IN
                    IsHex(x[1]) /\ IsHex(x[2]) /\ (Len(x) = 2 \/ x[3] = SP)
    IN IF good THEN [ok |-> TRUE, arr |-> [j \in 1..m |-> HexVal(grp(j)[1]) * 16 + HexVal(grp(j)[2])]]
       ELSE Bad

\* one line, without its newline
ParseLine(l, radix) ==
    LET isd(c) == IF radix = 16 THEN IsHex(c) ELSE IsDec(c)
        p1 == FirstIdx(l, LAMBDA c : c = SP, 1)
        f1 == SubSeq(l, 1, p1 - 1)
        p2 == FirstIdx(l, LAMBDA c : c = SP, p1 + 1)
        f2 == SubSeq(l, p1 + 1, p2 - 1)
        rest == SubSeq(l, p2, Len(l))
        num(f) == Len(f) <= 15 /\ \A i \in 1..Len(f) : isd(f[i])
    IN IF p1 > Len(l) \/ ~num(f1) \/ ~num(f2) THEN Bad
       ELSE IF rest = <<>> THEN
            [ok |-> TRUE, rec |-> [off |-> Num(f1, radix), len |-> Num(f2, radix), arr |-> <<>>, bar |-> FALSE]]
       ELSE IF Len(rest) < 3 \/ SubSeq(rest, 1, 3) # <<SP, BAR, SP>> THEN Bad
       ELSE LET a == ParseArray(SubSeq(rest, 4, Len(rest))) IN
            IF ~a.ok THEN Bad
            ELSE [ok |-> TRUE, rec |-> [off |-> Num(f1, radix), len |-> Num(f2, radix), arr |-> a.arr, bar |-> TRUE]]

Lines(t) ==   \* the lines of t without their newlines; a last line without newline counts
    LET nl == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = NL)
        ends == IF Len(t) > 0 /\ t[Len(t)] # NL THEN Append(nl, Len(t) + 1) ELSE nl
    IN [k \in 1..Len(ends) |-> SubSeq(t, (IF k = 1 THEN 0 ELSE ends[k - 1]) + 1, ends[k] - 1)]

ParseText(t, radix) ==
    LET ls == Lines(t)
        ps == [k \in 1..Len(ls) |-> ParseLine(ls[k], radix)]
    IN IF \A k \in 1..Len(ps) : ps[k].ok
       THEN [ok |-> TRUE, recs |-> [k \in 1..Len(ps) |-> ps[k].rec]]
       ELSE Bad

\* the records are sorted and do not overlap
Disjoint(recs) == \A k \in 1..(Len(recs) - 1) : recs[k].off + recs[k].len <= recs[k + 1].off
===========================================================================

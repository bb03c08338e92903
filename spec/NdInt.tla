------------------------------- MODULE NdInt -------------------------------
(***************************************************************************)
(* Signed integers of 64 bits, which TLC's own integers (32 bits) cannot    *)
(* hold.  A number is [neg, m]: a sign and a magnitude, which is a sequence *)
(* of base-256 digits, least significant first, without leading zeros.      *)
(* Undef is the result of everything C leaves undefined.                    *)
(***************************************************************************)
EXTENDS NdBase, Bitwise

Undef == [k |-> "u"]
IsNum(x) == x.k = "v"

RECURSIVE Trim(_)
Trim(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Trim(SubSeq(m, 1, Len(m) - 1))

Dig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE AddR(_, _, _, _)
AddR(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == Dig(a, i) + Dig(b, i) + c IN <<t % 256>> \o AddR(a, b, i + 1, t \div 256)
AddM(a, b) == AddR(a, b, 1, 0)

RECURSIVE SubR(_, _, _, _)      \* a >= b
SubR(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET t == a[i] - Dig(b, i) - c IN <<(t + 256) % 256>> \o SubR(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
SubM(a, b) == Trim(SubR(a, b, 1, 0))

RECURSIVE CmpR(_, _, _)
CmpR(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpR(a, b, i - 1)
CmpM(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpR(a, b, Len(a))

RECURSIVE MulDig(_, _, _, _)
MulDig(a, d, i, c) ==
    IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == a[i] * d + c IN <<t % 256>> \o MulDig(a, d, i + 1, t \div 256)
RECURSIVE MulR(_, _, _)
MulR(a, b, i) == IF i > Len(b) THEN <<>> ELSE AddM(Rep(0, i - 1) \o MulDig(a, b[i], 1, 0), MulR(a, b, i + 1))
MulM(a, b) == Trim(MulR(a, b, 1))

\* the bits of a magnitude, most significant first, feed a long division: [q, r]
BitOf(m, j) == (Dig(m, j \div 8 + 1) \div (2 ^ (j % 8))) % 2
RECURSIVE DivR(_, _, _, _, _)
DivR(a, b, j, q, r) ==
    IF j < 0 THEN [q |-> Trim(q), r |-> r]
    ELSE LET r2 == Trim(AddM(AddM(r, r), <<BitOf(a, j)>>))
             q2 == AddM(q, q)
         IN IF CmpM(r2, b) >= 0 THEN DivR(a, b, j - 1, AddM(q2, <<1>>), SubM(r2, b))
            ELSE DivR(a, b, j - 1, q2, r2)
\* short division by d < 256: [q, r] with r a number
RECURSIVE ShortR(_, _, _, _, _)
ShortR(m, d, i, r, q) ==
    IF i = 0 THEN [q |-> Trim(q), r |-> r]
    ELSE LET t == r * 256 + m[i] IN ShortR(m, d, i - 1, t % d, <<t \div d>> \o q)
DivM(a, b) ==
    IF Len(b) = 1 THEN LET s == ShortR(a, b[1], Len(a), 0, <<>>) IN [q |-> s.q, r |-> Trim(<<s.r>>)]
    ELSE DivR(a, b, 8 * Len(a) - 1, <<>>, <<>>)

TWO63 == <<0, 0, 0, 0, 0, 0, 0, 128>>

\* a value, or Undef when it does not fit into 64 bits
Mk(neg, m0) ==
    LET m == Trim(m0) IN
    IF m = <<>> THEN [k |-> "v", neg |-> FALSE, m |-> <<>>]
    ELSE IF neg THEN (IF CmpM(m, TWO63) > 0 THEN Undef ELSE [k |-> "v", neg |-> TRUE, m |-> m])
    ELSE IF CmpM(m, TWO63) >= 0 THEN Undef ELSE [k |-> "v", neg |-> FALSE, m |-> m]

RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o MagOf(n \div 256)
FromInt(n) == IF n < 0 THEN Mk(TRUE, MagOf(-n)) ELSE Mk(FALSE, MagOf(n))

Zero == FromInt(0)
One == FromInt(1)

\* n as one of TLC's integers, saturated
ToInt(x) ==
    LET RECURSIVE V(_, _)
        V(m, i) == IF i = 0 THEN 0 ELSE V(m, i - 1) + m[i] * (256 ^ (i - 1))
        mag == IF Len(x.m) > 3 THEN 16777216 ELSE V(x.m, Len(x.m))
    IN IF x.neg THEN -mag ELSE mag

Neg(x) == Mk(~x.neg, x.m)
Add(x, y) ==
    IF x.neg = y.neg THEN Mk(x.neg, AddM(x.m, y.m))
    ELSE IF CmpM(x.m, y.m) >= 0 THEN Mk(x.neg, SubM(x.m, y.m))
    ELSE Mk(y.neg, SubM(y.m, x.m))
Subtract(x, y) == IF x.neg # y.neg THEN Mk(x.neg, AddM(x.m, y.m))
             ELSE IF CmpM(x.m, y.m) >= 0 THEN Mk(x.neg, SubM(x.m, y.m))
             ELSE Mk(~x.neg, SubM(y.m, x.m))
Mul(x, y) == Mk(x.neg # y.neg, MulM(x.m, y.m))
\* truncated towards zero, as in C
Div(x, y) == IF y.m = <<>> THEN Undef ELSE Mk(x.neg # y.neg, DivM(x.m, y.m).q)
Mod(x, y) == IF y.m = <<>> \/ Div(x, y).k = "u" THEN Undef ELSE Mk(x.neg, DivM(x.m, y.m).r)

Less(x, y) == IF x.neg # y.neg THEN x.neg
              ELSE IF x.neg THEN CmpM(x.m, y.m) > 0 ELSE CmpM(x.m, y.m) < 0
Bool(b) == IF b THEN One ELSE Zero

\* two's complement: 8 digits
TwosOf(x) == LET p == [i \in 1..8 |-> Dig(x.m, i)] IN
             IF ~x.neg THEN p
             ELSE LET s == AddM([i \in 1..8 |-> 255 - p[i]], <<1>>) IN SubSeq(s, 1, 8)
FromTwos(p) ==
    IF p[8] < 128 THEN Mk(FALSE, p)
    ELSE LET s == AddM([i \in 1..8 |-> 255 - p[i]], <<1>>) IN Mk(TRUE, s)

AndV(x, y) == LET a == TwosOf(x)  b == TwosOf(y) IN FromTwos([i \in 1..8 |-> a[i] & b[i]])
OrV(x, y)  == LET a == TwosOf(x)  b == TwosOf(y) IN FromTwos([i \in 1..8 |-> a[i] | b[i]])
XorV(x, y) == LET a == TwosOf(x)  b == TwosOf(y) IN FromTwos([i \in 1..8 |-> a[i] ^^ b[i]])
NotV(x) == FromTwos([i \in 1..8 |-> 255 - TwosOf(x)[i]])

Pow2M(j) == Rep(0, j \div 8) \o <<2 ^ (j % 8)>>
ShiftOk(y) == ~y.neg /\ Len(y.m) <= 1 /\ Dig(y.m, 1) < 64
Shl(x, y) == IF ~ShiftOk(y) THEN Undef ELSE Mk(x.neg, MulM(x.m, Pow2M(Dig(y.m, 1))))
Shr(x, y) ==    \* floor of the quotient
    IF ~ShiftOk(y) THEN Undef
    ELSE LET d == DivM(x.m, Pow2M(Dig(y.m, 1))) IN
         IF x.neg /\ d.r # <<>> THEN Mk(TRUE, AddM(d.q, <<1>>)) ELSE Mk(x.neg, d.q)

\* little-endian signed number made of the bytes w
FromBytes(w) == FromTwos(w \o Rep(IF w[Len(w)] >= 128 THEN 255 ELSE 0, 8 - Len(w)))

---------------------------------------------------------------------------
\* the digits of a magnitude in base b
RECURSIVE DigitsR(_, _, _)
DigitsR(m, b, acc) == IF m = <<>> THEN acc ELSE LET d == ShortR(m, b, Len(m), 0, <<>>) IN DigitsR(d.q, b, <<d.r>> \o acc)
Digits(m, b) == IF m = <<>> THEN <<0>> ELSE DigitsR(m, b, <<>>)
DecText(x) == LET d == TLCEval(Digits(x.m, 10)) IN (IF x.neg THEN <<45>> ELSE <<>>) \o [i \in 1..Len(d) |-> 48 + d[i]]
===========================================================================

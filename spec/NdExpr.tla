------------------------------- MODULE NdExpr ------------------------------
(***************************************************************************)
(* The expression evaluation engine: C's operators and precedence over      *)
(* signed 64-bit numbers, with variables and array variables.               *)
(* Parse(t, vars) turns the text t (character codes) into a tree or "bad";  *)
(* vars maps names (sequences of codes) to "s" (scalar) or "a" (array).     *)
(***************************************************************************)
EXTENDS NdInt

IsDigitC(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsHexC(c) == IsDigitC(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
DigVal(c) == IF IsDigitC(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0

BadTok == [t |-> "bad"]

\* end of the run of characters of a class starting at i
InClass(c, k) == CASE k = "dig" -> IsDigitC(c) [] k = "dec" -> IsDigitC(c) \/ c = 95 [] k = "hex" -> IsHexC(c) \/ c = 95 [] k = "id" -> IsAlpha(c) \/ IsDigitC(c)
RECURSIVE RunEnd(_, _, _)
RunEnd(t, i, k) == IF i > Len(t) THEN i ELSE IF InClass(t[i], k) THEN RunEnd(t, i + 1, k) ELSE i

\* value of digit characters in base b: a magnitude (saturated at 2^64: anything larger is undefined anyway)
RECURSIVE DigitsVal(_, _, _, _)
DigitsVal(ds, i, b, acc) ==
    IF i > Len(ds) THEN acc
    ELSE LET v == AddM(MulDig(acc, b, 1, 0), <<DigVal(ds[i])>>) IN
         DigitsVal(ds, i + 1, b, IF CmpM(Trim(v), TWO63) > 0 THEN Rep(255, 8) ELSE Trim(v))

RECURSIVE PowM(_, _)
PowM(m, n) == IF n = 0 THEN <<1>> ELSE MulM(m, PowM(m, n - 1))

SiPower(c) == LET l == Lower(c) IN
    CASE l = 107 -> 1 [] l = 109 -> 2 [] l = 103 -> 3 [] l = 116 -> 4 [] l = 101 -> 6 [] OTHER -> 0

\* constant starting at i: [tok, next]
LexNum(t, i) ==
    LET pre  == IF t[i] = 48 THEN Lower(At(t, i + 1)) ELSE 0
        base == IF pre = 98 THEN 2 ELSE IF pre = 111 THEN 8 ELSE IF pre = 100 THEN 10 ELSE IF pre = 120 THEN 16
                ELSE IF t[i] = 48 THEN 8 ELSE 10
        from == IF pre \in {98, 111, 100, 120} THEN i + 2 ELSE i
        end  == RunEnd(t, from, IF base = 16 THEN "hex" ELSE "dec")
        run  == SubSeq(t, from, end - 1)
        ds   == SelectSeq(run, LAMBDA c : c # 95)
        good == /\ run # <<>> /\ run[1] # 95 /\ run[Len(run)] # 95
                /\ \A j \in 1..(Len(run) - 1) : ~(run[j] = 95 /\ run[j + 1] = 95)
                /\ \A j \in 1..Len(ds) : DigVal(ds[j]) < base
        si   == SiPower(At(t, end))
        bin  == si > 0 /\ At(t, end + 1) = 105
        sc   == IF si = 0 THEN <<1>> ELSE PowM(IF bin THEN <<0, 4>> ELSE <<232, 3>>, si)
        nxt  == IF si = 0 THEN end ELSE IF bin THEN end + 2 ELSE end + 1
    IN IF ~good THEN [tok |-> BadTok, next |-> Len(t) + 1]
       ELSE [tok |-> [t |-> "num", v |-> Mk(FALSE, MulM(Trim(DigitsVal(ds, 1, base, <<>>)), sc))], next |-> nxt]

\* sequence of tokens; the last one is [t |-> "end"] or BadTok
RECURSIVE Lex(_, _)
Lex(t, i) ==
    IF i > Len(t) THEN <<[t |-> "end"]>>
    ELSE LET c == t[i]  d == At(t, i + 1) IN
    IF c \in {32, 9, 10, 13} THEN Lex(t, i + 1)
    ELSE IF IsDigitC(c) THEN
        LET n == LexNum(t, i) IN IF n.tok.t = "bad" THEN <<BadTok>> ELSE <<n.tok>> \o Lex(t, n.next)
    ELSE IF IsAlpha(c) THEN
        LET e == RunEnd(t, i, "id") IN <<[t |-> "id", n |-> SubSeq(t, i, e - 1)]>> \o Lex(t, e)
    ELSE CASE c = 40 -> <<[t |-> "("]>> \o Lex(t, i + 1)
           [] c = 41 -> <<[t |-> ")"]>> \o Lex(t, i + 1)
           [] c = 91 -> <<[t |-> "["]>> \o Lex(t, i + 1)
           [] c = 93 -> <<[t |-> "]"]>> \o Lex(t, i + 1)
           [] c = 60 /\ d = 60 -> <<[t |-> "op", o |-> "<<"]>> \o Lex(t, i + 2)
           [] c = 62 /\ d = 62 -> <<[t |-> "op", o |-> ">>"]>> \o Lex(t, i + 2)
           [] c = 60 /\ d = 61 -> <<[t |-> "op", o |-> "<="]>> \o Lex(t, i + 2)
           [] c = 62 /\ d = 61 -> <<[t |-> "op", o |-> ">="]>> \o Lex(t, i + 2)
           [] c = 60 -> <<[t |-> "op", o |-> "<"]>> \o Lex(t, i + 1)
           [] c = 62 -> <<[t |-> "op", o |-> ">"]>> \o Lex(t, i + 1)
           [] c = 43 -> <<[t |-> "op", o |-> "+"]>> \o Lex(t, i + 1)
           [] c = 45 -> <<[t |-> "op", o |-> "-"]>> \o Lex(t, i + 1)
           [] c = 42 -> <<[t |-> "op", o |-> "*"]>> \o Lex(t, i + 1)
           [] c = 47 -> <<[t |-> "op", o |-> "/"]>> \o Lex(t, i + 1)
           [] c = 37 -> <<[t |-> "op", o |-> "%"]>> \o Lex(t, i + 1)
           [] c = 38 -> <<[t |-> "op", o |-> "&"]>> \o Lex(t, i + 1)
           [] c = 124 -> <<[t |-> "op", o |-> "|"]>> \o Lex(t, i + 1)
           [] c = 94 -> <<[t |-> "op", o |-> "^"]>> \o Lex(t, i + 1)
           [] c = 126 -> <<[t |-> "op", o |-> "~"]>> \o Lex(t, i + 1)
           [] OTHER -> <<BadTok>>

\* C's levels of the binary operators; 0: no binary operator
Level(o) == CASE o = "|" -> 1 [] o = "^" -> 2 [] o = "&" -> 3 [] o \in {"<", "<=", ">", ">="} -> 4
              [] o \in {"<<", ">>"} -> 5 [] o \in {"+", "-"} -> 6 [] o \in {"*", "/", "%"} -> 7 [] OTHER -> 0

\* Parsers yield [ok, e, i]: tree and index of the next token
No == [ok |-> FALSE]
Kind(v, vars) == LET h == {k \in 1..Len(vars) : vars[k].n = v} IN IF h = {} THEN "none" ELSE vars[CHOOSE k \in h : TRUE].k

RECURSIVE PExpr(_, _, _, _), PTail(_, _, _, _, _), PUnary(_, _, _)
PUnary(ts, i, vars) ==
    LET x == ts[i] IN
    CASE x.t = "op" /\ x.o \in {"+", "-", "~"} ->
            LET p == PUnary(ts, i + 1, vars) IN IF ~p.ok THEN No ELSE [ok |-> TRUE, e |-> [k |-> "un", o |-> x.o, a |-> p.e], i |-> p.i]
      [] x.t = "num" -> [ok |-> TRUE, e |-> [k |-> "num", v |-> x.v], i |-> i + 1]
      [] x.t = "(" -> LET p == PExpr(ts, i + 1, 1, vars) IN
                      IF ~p.ok THEN No ELSE IF ts[p.i].t # ")" THEN No ELSE [p EXCEPT !.i = p.i + 1]
      [] x.t = "id" ->
            (CASE Kind(x.n, vars) = "s" -> [ok |-> TRUE, e |-> [k |-> "var", n |-> x.n], i |-> i + 1]
               [] Kind(x.n, vars) = "a" ->
                    IF ts[i + 1].t # "[" THEN No
                    ELSE LET p == PExpr(ts, i + 2, 1, vars) IN
                         IF ~p.ok THEN No ELSE IF ts[p.i].t # "]" THEN No
                         ELSE [ok |-> TRUE, e |-> [k |-> "arr", n |-> x.n, a |-> p.e], i |-> p.i + 1]
               [] OTHER -> No)
      [] OTHER -> No

\* operators of level lv and above, left associative
PTail(ts, lhs, i, lv, vars) ==
    LET x == ts[i] IN
    IF x.t # "op" THEN [ok |-> TRUE, e |-> lhs, i |-> i]
    ELSE IF Level(x.o) < lv THEN [ok |-> TRUE, e |-> lhs, i |-> i]
    ELSE LET p == PExpr(ts, i + 1, Level(x.o) + 1, vars) IN
         IF ~p.ok THEN No
         ELSE PTail(ts, [k |-> "bin", o |-> x.o, a |-> lhs, b |-> p.e], p.i, lv, vars)
PExpr(ts, i, lv, vars) ==
    LET p == PUnary(ts, i, vars) IN IF ~p.ok THEN No ELSE PTail(ts, p.e, p.i, lv, vars)

\* [ok, e]
Parse(t, vars) ==
    LET ts == Lex(t, 1) IN
    IF ts[Len(ts)].t = "bad" THEN No
    ELSE LET p == PExpr(ts, 1, 1, vars) IN IF ~p.ok THEN No ELSE IF ts[p.i].t # "end" THEN No ELSE [ok |-> TRUE, e |-> p.e]

\* comparisons are only defined where the difference of the operands is a number
Sub1(x, y) == LET d == Subtract(x, y) IN IF IsNum(d) THEN Subtract(d, One) ELSE d
Apply(o, x, y) ==
    IF o \in {"<", ">", "<=", ">="} /\ (~IsNum(Sub1(x, y)) \/ ~IsNum(Sub1(y, x))) THEN Undef ELSE
    CASE o = "+" -> Add(x, y) [] o = "-" -> Subtract(x, y) [] o = "*" -> Mul(x, y) [] o = "/" -> Div(x, y) [] o = "%" -> Mod(x, y)
      [] o = "&" -> AndV(x, y) [] o = "|" -> OrV(x, y) [] o = "^" -> XorV(x, y) [] o = "<<" -> Shl(x, y) [] o = ">>" -> Shr(x, y)
      [] o = "<" -> Bool(Less(x, y)) [] o = ">" -> Bool(Less(y, x)) [] o = "<=" -> Bool(~Less(y, x)) [] o = ">=" -> Bool(~Less(x, y))

(* Where the values of variables come from:                                 *)
(*   [k |-> "const"]              no variables                              *)
(*   [k |-> "templ", n, l]        offset and number of the slice            *)
(*   [k |-> "walk", s, head]      little-endian views of the stream         *)
Err == [k |-> "r"]     \* an error
ElemSize(v) == CASE v = <<98>> -> 1 [] v = <<104>> -> 2 [] v = <<105>> -> 4 [] v = <<108>> -> 8
GetVar(env, v) == IF env.k # "templ" THEN Undef ELSE IF v = <<110>> THEN FromInt(env.n) ELSE FromInt(env.l)
\* element x >= 0 of array v; elements that are not entirely within the stream are zero
GetElem(env, v, x) ==
    LET w == ElemSize(v)  a == env.head + w * ToInt(x) IN
    IF a + w > Len(env.s) THEN Zero ELSE FromBytes(Sub(env.s, a, a + w))

\* value of a tree: a number, Undef, or Err
RECURSIVE Eval(_, _)
EvalUn(o, x) == IF ~IsNum(x) THEN x ELSE CASE o = "+" -> x [] o = "-" -> Neg(x) [] o = "~" -> NotV(x)
EvalBin(o, x, y) == IF x.k = "u" \/ y.k = "u" THEN Undef ELSE IF x.k = "r" \/ y.k = "r" THEN Err ELSE Apply(o, x, y)
EvalArr(env, v, x) == IF ~IsNum(x) THEN x ELSE IF x.neg THEN Err ELSE GetElem(env, v, x)
Eval(e, env) ==
    CASE e.k = "num" -> e.v
      [] e.k = "var" -> GetVar(env, e.n)
      [] e.k = "un"  -> EvalUn(e.o, Eval(e.a, env))
      [] e.k = "arr" -> EvalArr(env, e.n, Eval(e.a, env))
      [] e.k = "bin" -> EvalBin(e.o, Eval(e.a, env), Eval(e.b, env))

---------------------------------------------------------------------------
(* The contexts in which expressions occur.                                 *)

\* no variables: an argument N
NoVars == <<>>
EvalConst(t) ==
    LET p == Parse(t, NoVars) IN
    IF ~p.ok THEN Err ELSE Eval(p.e, [k |-> "const"])

\* output templates: n (98+12 = 'n') and l
TemplVars == << [n |-> <<110>>, k |-> "s"], [n |-> <<108>>, k |-> "s"] >>
\* --walk: signed little-endian elements of the stream from `head' on
WalkVars == << [n |-> <<98>>, k |-> "a"], [n |-> <<104>>, k |-> "a"], [n |-> <<105>>, k |-> "a"], [n |-> <<108>>, k |-> "a"] >>
EvalWalk(t, s, head) ==
    LET p == Parse(t, WalkVars) IN IF ~p.ok THEN Err ELSE Eval(p.e, [k |-> "walk", s |-> s, head |-> head])

\* range expressions: the tree as a linear form cs*s + ce*e + k, if it is one
RangeVars == << [n |-> <<115>>, k |-> "s"], [n |-> <<101>>, k |-> "s"] >>
Lin(cs, ce, k) == IF IsNum(cs) /\ IsNum(ce) /\ IsNum(k) THEN [lin |-> TRUE, cs |-> cs, ce |-> ce, k |-> k] ELSE [lin |-> FALSE]
IsConst(x) == x.cs = Zero /\ x.ce = Zero
\* c*s or c*e (products are not distributed over sums)
IsTerm(x) == x.k = Zero /\ (x.cs = Zero \/ x.ce = Zero)
RECURSIVE Linear(_)
Linear(e) ==
    CASE e.k = "num" -> Lin(Zero, Zero, e.v)
      [] e.k = "var" -> IF e.n = <<115>> THEN Lin(One, Zero, Zero) ELSE Lin(Zero, One, Zero)
      [] e.k = "un" ->
            LET a == Linear(e.a) IN
            IF ~a.lin THEN a
            ELSE CASE e.o = "+" -> a
                   [] e.o = "-" -> Lin(Neg(a.cs), Neg(a.ce), Neg(a.k))
                   [] OTHER -> IF IsConst(a) THEN Lin(Zero, Zero, NotV(a.k)) ELSE [lin |-> FALSE]
      [] e.k = "bin" ->
            LET a == Linear(e.a)  b == Linear(e.b) IN
            IF ~a.lin \/ ~b.lin THEN [lin |-> FALSE]
            ELSE CASE e.o = "+" -> Lin(Add(a.cs, b.cs), Add(a.ce, b.ce), Add(a.k, b.k))
                   [] e.o = "-" -> Lin(Subtract(a.cs, b.cs), Subtract(a.ce, b.ce), Subtract(a.k, b.k))
                   [] IsConst(a) /\ IsConst(b) -> Lin(Zero, Zero, Apply(e.o, a.k, b.k))
                   [] e.o = "*" /\ IsConst(b) /\ IsTerm(a) -> Lin(Mul(a.cs, b.k), Mul(a.ce, b.k), Mul(a.k, b.k))
                   [] e.o = "*" /\ IsConst(a) /\ IsTerm(b) -> Lin(Mul(b.cs, a.k), Mul(b.ce, a.k), Mul(b.k, a.k))
                   [] OTHER -> [lin |-> FALSE]
\* a bound of S..E: [k |-> "b", a |-> "s" or "e", o |-> number], Err, or Undef where this specification has no opinion
Bound1(t, empty) ==
    IF t = <<>> THEN [k |-> "b", a |-> empty, o |-> Zero]
    ELSE IF SelectSeq(t, LAMBDA c : c \notin {32, 9}) = <<>> THEN Undef      \* blanks only
    ELSE LET p == Parse(t, RangeVars) IN
         IF ~p.ok THEN Err
         ELSE LET f == Linear(p.e) IN
              IF ~f.lin THEN Undef
              ELSE IF f.ce = Zero /\ f.cs \in {Zero, One} THEN [k |-> "b", a |-> "s", o |-> f.k]
              ELSE IF f.ce = One /\ f.cs = Zero THEN [k |-> "b", a |-> "e", o |-> f.k]
              ELSE Err

---------------------------------------------------------------------------
(* --walk with the texts ts over the stream s from `head' on: the bounds of the slices, flattened, as [k |-> "name", t],  *)
(* or Err, or Undef.                                                                                               *)
RECURSIVE WalkParsed(_, _, _)
WalkParsed(ps, s, head) ==      \* sequence of bounds, or Err, or Undef
    IF head >= Len(s) THEN [k |-> "name", t |-> <<>>]
    ELSE LET vs == TLCEval([j \in 1..Len(ps) |-> IF ~ps[j].ok THEN Err ELSE Eval(ps[j].e, [k |-> "walk", s |-> s, head |-> head])]) IN
         IF \E j \in 1..Len(vs) : vs[j].k = "u" THEN Undef
         ELSE IF \E j \in 1..Len(vs) : vs[j].k = "r" \/ ~Less(Zero, vs[j]) THEN Err
         ELSE LET spans == TLCEval([j \in 1..Len(vs) |-> ToInt(vs[j])])
                  start(j) == head + FoldLeft(LAMBDA a, b : Min2(20000000, a + b), 0, SubSeq(spans, 1, j - 1))
                  segs == SelectSeq([j \in 1..Len(vs) |-> <<Min2(start(j), Len(s)), Min2(start(j) + spans[j], Len(s))>>], NonEmpty)
                  rest == TLCEval(WalkParsed(ps, s, start(Len(vs) + 1)))
              IN IF rest.k # "name" THEN rest ELSE [k |-> "name", t |-> Flat(segs) \o rest.t]
WalkAll(ts, s, head) == LET ps == TLCEval([j \in 1..Len(ts) |-> Parse(ts[j], WalkVars)]) IN WalkParsed(ps, s, head)
===========================================================================

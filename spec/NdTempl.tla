------------------------------ MODULE NdTempl -----------------------------
(***************************************************************************)
(* Output templates: literal text with {VAR}, {VAR:FORMATTER}, {(EXPR)} and *)
(* {(EXPR):FORMATTER}, where FORMATTER is Rust's format specifier for i64.  *)
(***************************************************************************)
EXTENDS NdExpr

\* smallest i >= from with t[i] = c, Len(t)+1 if none
RECURSIVE FirstIdx1(_, _, _)
FirstIdx1(t, c, i) == IF i > Len(t) THEN Len(t) + 1 ELSE IF t[i] = c THEN i ELSE FirstIdx1(t, c, i + 1)

LBRACE == 123  RBRACE == 125  COLON == 58

\* [[fill]align][sign]['#']['0'][width][type]; [ok, fill, al, plus, alt, zero, w, ty]
AlignCh == {60, 94, 62}
FmtSpec(f) ==
    LET two  == Len(f) >= 2 /\ f[2] \in AlignCh
        one  == ~two /\ Len(f) >= 1 /\ f[1] \in AlignCh
        fill == IF two THEN f[1] ELSE 32
        al   == IF two THEN f[2] ELSE IF one THEN f[1] ELSE 0
        i1   == IF two THEN 3 ELSE IF one THEN 2 ELSE 1
        sg   == At(f, i1) \in {43, 45}
        i2   == IF sg THEN i1 + 1 ELSE i1
        alt  == At(f, i2) = 35
        i3   == IF alt THEN i2 + 1 ELSE i2
        zero == At(f, i3) = 48
        i4   == IF zero THEN i3 + 1 ELSE i3
        i5   == RunEnd(f, i4, "dig")
        ty   == At(f, i5)
    IN [ok |-> /\ ty \in {0, 98, 111, 100, 120, 88}
               /\ Len(f) = (IF ty = 0 THEN i5 - 1 ELSE i5),
        fill |-> fill, al |-> al, plus |-> sg /\ f[i1] = 43, alt |-> alt, zero |-> zero,
        w |-> ToInt([k |-> "v", neg |-> FALSE, m |-> Trim(DigitsVal(SubSeq(f, i4, i5 - 1), 1, 10, <<>>))]), ty |-> ty]

DigitC(d, up) == IF d < 10 THEN 48 + d ELSE IF up THEN 55 + d ELSE 87 + d
RECURSIVE Strip0(_)
Strip0(v) == IF Len(v) > 1 /\ v[1] = 0 THEN Strip0(Tail(v)) ELSE v

\* value x rendered by a specifier
Render(x, f) ==
    LET dec  == f.ty \in {0, 100}
        base == CASE f.ty = 98 -> 2 [] f.ty = 111 -> 8 [] dec -> 10 [] OTHER -> 16
        ds   == IF dec THEN Digits(x.m, 10) ELSE Digits(Trim(TwosOf(x)), base)
        dig  == [i \in 1..Len(ds) |-> DigitC(ds[i], f.ty = 88)]
        sign == IF dec /\ x.neg THEN <<45>> ELSE IF f.plus THEN <<43>> ELSE <<>>
        pre  == IF ~f.alt THEN <<>> ELSE CASE base = 2 -> <<48, 98>> [] base = 8 -> <<48, 111>> [] base = 16 -> <<48, 120>> [] OTHER -> <<>>
        len  == Len(sign) + Len(pre) + Len(dig)
        pad  == Max2(0, f.w - len)
        left == IF f.al = 60 THEN 0 ELSE IF f.al = 94 THEN pad \div 2 ELSE pad
    IN IF f.zero THEN sign \o pre \o Rep(48, pad) \o dig
       ELSE Rep(f.fill, left) \o sign \o pre \o dig \o Rep(f.fill, pad - left)

\* a template as a sequence of pieces: [lit |-> text] or [ex |-> tree, f |-> specifier]; or "bad"
RECURSIVE Pieces(_, _)
Pieces(t, i) ==
    LET a == FirstIdx1(t, LBRACE, i)
        b == FirstIdx1(t, RBRACE, a) IN
    IF a > Len(t) \/ b > Len(t) THEN IF i > Len(t) THEN <<>> ELSE <<[k |-> "lit", t |-> SubSeq(t, i, Len(t))]>>
    ELSE LET inner == SubSeq(t, a + 1, b - 1)
             c    == FirstIdx1(inner, COLON, 1)
             name == SubSeq(inner, 1, c - 1)
             f    == FmtSpec(SubSeq(inner, c + 1, Len(inner)))
             var  == name # <<>> /\ \A j \in 1..Len(name) : IsAlpha(name[j])
             par  == Len(name) >= 2 /\ name[1] = 40 /\ name[Len(name)] = 41
             p    == Parse(name, TemplVars)
         IN (IF a > i THEN <<[k |-> "lit", t |-> SubSeq(t, i, a - 1)]>> ELSE <<>>)
            \o (IF (var \/ par) /\ p.ok /\ f.ok THEN <<[k |-> "ex", e |-> p.e, f |-> f]>> ELSE <<[k |-> "bad"]>>)
            \o Pieces(t, b + 1)

\* [k |-> "name", t |-> text] or [k |-> "r"] (rejected) or [k |-> "u"] (no opinion)
RenderTempl(ps, n, l) ==
    LET vs == [j \in 1..Len(ps) |->
                CASE ps[j].k = "lit" -> [k |-> "v", t |-> ps[j].t]
                  [] ps[j].k = "bad" -> Err
                  [] ps[j].k = "ex" ->
                        LET x == Eval(ps[j].e, [k |-> "templ", n |-> n, l |-> l]) IN
                        IF IsNum(x) THEN [k |-> "v", t |-> Render(x, ps[j].f)] ELSE x]
    IN IF \E j \in 1..Len(vs) : vs[j].k = "r" THEN Err
       ELSE IF \E j \in 1..Len(vs) : vs[j].k = "u" THEN Undef
       ELSE [k |-> "name", t |-> Flat([j \in 1..Len(vs) |-> vs[j].t])]
===========================================================================

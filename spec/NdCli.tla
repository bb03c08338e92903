------------------------------- MODULE NdCli -------------------------------
(***************************************************************************)
(* The command line: from argv (without the program name, as character      *)
(* codes) to the configuration of NdPipe, or to a rejection.                *)
(*                                                                          *)
(* Three outcomes everywhere: [k |-> "v", ...] a value, Err a rejection,    *)
(* Undef where this specification has no opinion (--help, --version, pagers,*)
(* output files, in-place editing, unusual column formats).                 *)
(***************************************************************************)
EXTENDS NdPipe, NdExpr

\* ------------------------------------------------------------ the table of options
\* key, short name (0: none), whether it takes a value, and the key in character codes
Opts == <<
    [key |-> "in-format", short |-> 70, val |-> TRUE, long |-> <<105, 110, 45, 102, 111, 114, 109, 97, 116>>],
    [key |-> "out-format", short |-> 102, val |-> TRUE, long |-> <<111, 117, 116, 45, 102, 111, 114, 109, 97, 116>>],
    [key |-> "filler", short |-> 0, val |-> TRUE, long |-> <<102, 105, 108, 108, 101, 114>>],
    [key |-> "cat", short |-> 99, val |-> TRUE, long |-> <<99, 97, 116>>],
    [key |-> "zip", short |-> 122, val |-> TRUE, long |-> <<122, 105, 112>>],
    [key |-> "inplace", short |-> 105, val |-> FALSE, long |-> <<105, 110, 112, 108, 97, 99, 101>>],
    [key |-> "cut", short |-> 110, val |-> TRUE, long |-> <<99, 117, 116>>],
    [key |-> "pad", short |-> 97, val |-> TRUE, long |-> <<112, 97, 100>>],
    [key |-> "patch", short |-> 112, val |-> TRUE, long |-> <<112, 97, 116, 99, 104>>],
    [key |-> "width", short |-> 119, val |-> TRUE, long |-> <<119, 105, 100, 116, 104>>],
    [key |-> "find", short |-> 100, val |-> TRUE, long |-> <<102, 105, 110, 100>>],
    [key |-> "walk", short |-> 107, val |-> TRUE, long |-> <<119, 97, 108, 107>>],
    [key |-> "slice", short |-> 114, val |-> TRUE, long |-> <<115, 108, 105, 99, 101>>],
    [key |-> "guide", short |-> 103, val |-> TRUE, long |-> <<103, 117, 105, 100, 101>>],
    [key |-> "regex", short |-> 101, val |-> TRUE, long |-> <<114, 101, 103, 101, 120>>],
    [key |-> "extend", short |-> 120, val |-> TRUE, long |-> <<101, 120, 116, 101, 110, 100>>],
    [key |-> "invert", short |-> 118, val |-> TRUE, long |-> <<105, 110, 118, 101, 114, 116>>],
    [key |-> "merge", short |-> 109, val |-> TRUE, long |-> <<109, 101, 114, 103, 101>>],
    [key |-> "lines", short |-> 108, val |-> TRUE, long |-> <<108, 105, 110, 101, 115>>],
    [key |-> "output", short |-> 111, val |-> TRUE, long |-> <<111, 117, 116, 112, 117, 116>>],
    [key |-> "patch-back", short |-> 80, val |-> TRUE, long |-> <<112, 97, 116, 99, 104, 45, 98, 97, 99, 107>>],
    [key |-> "pager", short |-> 0, val |-> TRUE, long |-> <<112, 97, 103, 101, 114>>],
    [key |-> "help", short |-> 104, val |-> FALSE, long |-> <<104, 101, 108, 112>>],
    [key |-> "version", short |-> 86, val |-> FALSE, long |-> <<118, 101, 114, 115, 105, 111, 110>>] >>

DASH == 45   EQ == 61   COMMA == 44
StdinNames == {<<DASH>>, <<47, 100, 101, 118, 47, 115, 116, 100, 105, 110>>}
IsPrefixOf(p, t) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p

\* ------------------------------------------------------------ options
\* the option a long name stands for: the one spelt so, or the only one that begins so; 0 if there is none
LongOpt(name) ==
    LET exact == {k \in 1..Len(Opts) : Opts[k].long = name}
        pre   == {k \in 1..Len(Opts) : IsPrefixOf(name, Opts[k].long)}
    IN IF exact # {} THEN CHOOSE k \in exact : TRUE
       ELSE IF Cardinality(pre) = 1 THEN CHOOSE k \in pre : TRUE ELSE 0
ShortOpt(c) == LET h == {k \in 1..Len(Opts) : Opts[k].short = c /\ c # 0} IN IF h = {} THEN 0 ELSE CHOOSE k \in h : TRUE

\* st: [opts |-> sequence of <<key, value>>, pos |-> operands]
RECURSIVE ArgvR(_, _, _), Cluster(_, _, _, _)
Given(st, key, v) == [st EXCEPT !.opts = Append(@, <<key, v>>)]
\* the value in the next argument
NextArg(argv, i, st, key) ==
    IF i + 1 > Len(argv) THEN Err
    ELSE LET v == argv[i + 1] IN
         IF Len(v) > 1 /\ v[1] = DASH THEN Err
         ELSE ArgvR(argv, i + 2, Given(st, key, v))
\* the short options from character j on
Cluster(argv, i, j, st) ==
    LET a == argv[i] IN
    IF j > Len(a) THEN ArgvR(argv, i + 1, st)
    ELSE LET o == ShortOpt(a[j]) IN
         IF o = 0 THEN Err
         ELSE IF Opts[o].key \in {"help", "version"} THEN Undef
         ELSE IF ~Opts[o].val THEN Cluster(argv, i, j + 1, Given(st, Opts[o].key, <<>>))
         ELSE IF j = Len(a) THEN NextArg(argv, i, st, Opts[o].key)
         ELSE LET rest == SubSeq(a, j + 1, Len(a)) IN
              ArgvR(argv, i + 1, Given(st, Opts[o].key, IF rest[1] = EQ THEN Tail(rest) ELSE rest))
ArgvR(argv, i, st) ==
    IF i > Len(argv) THEN [k |-> "v", opts |-> st.opts, pos |-> st.pos]
    ELSE LET a == argv[i] IN
         IF a = <<DASH, DASH>> THEN [k |-> "v", opts |-> st.opts, pos |-> st.pos \o SubSeq(argv, i + 1, Len(argv))]
         ELSE IF Len(a) > 2 /\ a[1] = DASH /\ a[2] = DASH THEN
            LET e == FirstIdx(a, LAMBDA c : c = EQ, 3)
                o == LongOpt(SubSeq(a, 3, e - 1)) IN
            IF o = 0 THEN Err
            ELSE IF Opts[o].key \in {"help", "version"} THEN Undef
            ELSE IF ~Opts[o].val THEN (IF e <= Len(a) THEN Err ELSE ArgvR(argv, i + 1, Given(st, Opts[o].key, <<>>)))
            ELSE IF e <= Len(a) THEN ArgvR(argv, i + 1, Given(st, Opts[o].key, SubSeq(a, e + 1, Len(a))))
            ELSE NextArg(argv, i, st, Opts[o].key)
         ELSE IF Len(a) > 1 /\ a[1] = DASH THEN Cluster(argv, i, 2, st)
         ELSE ArgvR(argv, i + 1, [st EXCEPT !.pos = Append(@, a)])
ParseArgv(argv) == ArgvR(argv, 1, [opts |-> <<>>, pos |-> <<>>])

\* ------------------------------------------------------------ values
Val(x) == [k |-> "v", v |-> x]
\* worst of a sequence of outcomes
Worst(os) == IF \E j \in 1..Len(os) : os[j].k = "r" THEN "r" ELSE IF \E j \in 1..Len(os) : os[j].k = "u" THEN "u" ELSE "v"
Gather(os) == LET w == Worst(os) IN IF w = "r" THEN Err ELSE IF w = "u" THEN Undef ELSE Val([j \in 1..Len(os) |-> os[j].v])

RECURSIVE SplitAt(_, _)
SplitAt(t, c) == LET i == FirstIdx(t, LAMBDA x : x = c, 1) IN
                 IF i > Len(t) THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o SplitAt(SubSeq(t, i + 1, Len(t)), c)
\* a list; one comma may follow the last element
ListOf(t) == SplitAt(IF t # <<>> /\ t[Len(t)] = COMMA THEN SubSeq(t, 1, Len(t) - 1) ELSE t, COMMA)

\* N: a non-negative number (saturated)
Number(t) == LET x == EvalConst(t) IN IF ~IsNum(x) THEN x ELSE IF x.neg THEN Err ELSE Val(ToInt(x))
NumberOr0(t) == IF t = <<>> THEN Val(0) ELSE Number(t)
\* N,M
NumPair(t) ==
    LET ps == SplitAt(t, COMMA) IN
    IF t = <<>> \/ Len(ps) > 2 THEN Err
    ELSE LET g == Gather([j \in 1..Len(ps) |-> NumberOr0(ps[j])]) IN
         IF g.k # "v" THEN g ELSE Val(<<g.v[1], IF Len(g.v) = 2 THEN g.v[2] ELSE 0>>)

\* S..E
DotDot(t, from) == LET h == {j \in from..(Len(t) - 1) : t[j] = DOT /\ t[j + 1] = DOT} IN IF h = {} THEN 0 ELSE CHOOSE j \in h : \A x \in h : j <= x
RangeOf(t) ==
    LET i == DotDot(t, 1) IN
    IF i = 0 THEN Err
    ELSE IF DotDot(t, i + 2) # 0 THEN Err
    ELSE LET a == Bound1(SubSeq(t, 1, i - 1), "s")  b == Bound1(SubSeq(t, i + 2, Len(t)), "e") IN
         IF a.k = "r" \/ b.k = "r" THEN Err
         ELSE IF a.k = "u" \/ b.k = "u" THEN Undef
         ELSE Val([sa |-> a.a, so |-> ToInt(a.o), ea |-> b.a, eo |-> ToInt(b.o)])
\* S..E[,...]: an empty list selects nothing where lists select
Ranges(t) == IF t = <<>> THEN Val(<<>>) ELSE LET ps == ListOf(t) IN Gather([j \in 1..Len(ps) |-> RangeOf(ps[j])])
RangesNE(t) == IF SelectSeq(t, LAMBDA c : c # SP) = <<>> THEN Err ELSE Ranges(t)
\* N[,S..E]
BIGV == 16777216
Full == [sa |-> "s", so |-> 0, ea |-> "e", eo |-> 0]
WidthArg(t) ==
    LET ps == SplitAt(t, COMMA)
        n == Number(ps[1])
        r == IF Len(ps) = 2 THEN RangeOf(ps[2]) ELSE Val(Full)
    IN IF Len(ps) > 2 THEN Err
       ELSE IF Worst(<<n, r>>) # "v" THEN [k |-> Worst(<<n, r>>)]
       ELSE IF n.v = 0 THEN Err
       ELSE IF n.v = BIGV \/ r.v.so \in {BIGV, -BIGV} \/ r.v.eo \in {BIGV, -BIGV} THEN Undef
       ELSE IF WidthSpan(n.v, r.v) <= 0 THEN Err
       ELSE Val([w |-> n.v, r |-> r.v])
\* a hexadecimal array of at most 64 bytes
ArrayArg(t) == LET a == ParseArray(t) IN IF ~a.ok THEN Err ELSE IF Len(a.arr) > 64 THEN Err ELSE IF Len(t) > 192 THEN Undef ELSE Val(a.arr)
\* format signatures
Sigs == << <<"b", <<98>>>>, <<"b", <<110, 110, 98>>>>, <<"b", <<110, 44, 110, 44, 98>>>>, <<"d", <<100>>>>, <<"d", <<100, 100, 120>>>>, <<"d", <<100, 44, 100, 44, 120>>>>, <<"d", <<100, 44, 100>>>>,
           <<"x", <<120>>>>, <<"x", <<120, 120, 120>>>>, <<"x", <<120, 44, 120>>>>, <<"x", <<120, 44, 120, 44, 120>>>>, <<"nnx", <<110, 110, 120>>>>, <<"nnx", <<110, 44, 110>>>>, <<"nnx", <<110, 44, 110, 44, 120>>>> >>
FormatArg(t) ==
    LET h == {j \in 1..Len(Sigs) : Sigs[j][2] = t}
        ps == SplitAt(t, COMMA)
        part(p) == \/ Len(p) = 1 /\ p[1] \in {110, 98, 100, 120}
                   \/ Len(p) > 1 /\ p[1] \in {64, 61, 60, 62, 33}
    IN IF h # {} THEN Val(Sigs[CHOOSE j \in h : TRUE][1])
       ELSE IF Len(ps) > 3 THEN Err
       ELSE IF \E j \in 1..Len(ps) : ~part(ps[j]) THEN Err
       ELSE Undef

\* ------------------------------------------------------------ the configuration
Has(p, key) == \E j \in 1..Len(p.opts) : p.opts[j][1] = key
Arg(p, key) == LET h == CHOOSE j \in 1..Len(p.opts) : p.opts[j][1] = key IN p.opts[h][2]
Count(p, keys) == Cardinality({j \in 1..Len(p.opts) : p.opts[j][1] \in keys})
\* an option's value through F, as a sequence of length 0 or 1
Opt(p, key, F(_)) == IF ~Has(p, key) THEN Val(<<>>) ELSE LET x == F(Arg(p, key)) IN IF x.k # "v" THEN x ELSE Val(<<x.v>>)
Def(o, d) == IF o.v = <<>> THEN d ELSE o.v[1]

\* streams and columns beyond this are not spelt out
LIM == 20000

SlicerKeys == {"width", "find", "walk", "slice", "guide"}

\* world: [files |-> sequence of <<name, content>>, stdin |-> content, rx |-> sequence of <<text, syntax tree>>]
Content(w, name) ==
    IF name \in StdinNames THEN Val(w.stdin)
    ELSE LET h == {j \in 1..Len(w.files) : w.files[j][1] = name} IN
         IF h = {} THEN Err ELSE Val(w.files[CHOOSE j \in h : TRUE][2])
RegexArg(w, t) == LET h == {j \in 1..Len(w.rx) : w.rx[j][1] = t} IN IF h = {} THEN Undef ELSE Val(w.rx[CHOOSE j \in h : TRUE][2])
FileArg(w, t) == Content(w, t)
CatCommand == <<99, 97, 116>>

Config(p, w) ==
    LET operands == IF p.pos = <<>> /\ ~Has(p, "inplace") THEN <<<<DASH>>>> ELSE p.pos
        users == [j \in 1..Len(operands) |-> operands[j]] \o (IF Has(p, "patch") THEN <<Arg(p, "patch")>> ELSE <<>>)
                 \o (IF Has(p, "guide") THEN <<Arg(p, "guide")>> ELSE <<>>)
        stdins == Cardinality({j \in 1..Len(users) : users[j] \in StdinNames})
        ins    == TLCEval(Gather([j \in 1..Len(operands) |-> Content(w, operands[j])]))
        infmt  == TLCEval(Opt(p, "in-format", FormatArg))
        outfmt == TLCEval(Opt(p, "out-format", FormatArg))
        filler == TLCEval(Opt(p, "filler", Number))
        cat    == TLCEval(Opt(p, "cat", Number))
        zip    == TLCEval(Opt(p, "zip", Number))
        cut    == TLCEval(Opt(p, "cut", Ranges))
        pad    == TLCEval(Opt(p, "pad", NumPair))
        patch  == TLCEval(Opt(p, "patch", LAMBDA t : FileArg(w, t)))
        width  == TLCEval(Opt(p, "width", WidthArg))
        find   == TLCEval(Opt(p, "find", ArrayArg))
        slice  == TLCEval(Opt(p, "slice", Ranges))
        guide  == TLCEval(Opt(p, "guide", LAMBDA t : FileArg(w, t)))
        walk   == TLCEval(Opt(p, "walk", LAMBDA t : Gather([j \in 1..Len(ListOf(t)) |-> IF Parse(ListOf(t)[j], WalkVars).ok THEN Val(ListOf(t)[j]) ELSE Err])))
        regex  == TLCEval(Opt(p, "regex", LAMBDA t : RegexArg(w, t)))
        invert == TLCEval(Opt(p, "invert", RangesNE))
        extend == TLCEval(Opt(p, "extend", RangesNE))
        merge  == TLCEval(Opt(p, "merge", Number))
        lines  == TLCEval(Opt(p, "lines", Ranges))
        output == TLCEval(Opt(p, "output", LAMBDA t : IF t \in {<<>>, <<DASH>>} THEN Val(t) ELSE Undef))
        pback  == TLCEval(Opt(p, "patch-back", LAMBDA t : IF t = CatCommand THEN Val([k |-> "cat", n |-> 0, t |-> <<>>]) ELSE Undef))
        pager  == TLCEval(Opt(p, "pager", LAMBDA t : IF t = CatCommand THEN Val(t) ELSE Undef))
        all    == Worst(<<ins, infmt, outfmt, filler, cat, zip, cut, pad, patch, width, find, slice, guide, walk, regex, invert, extend, merge, lines, output, pback, pager>>)
        word   == IF Has(p, "zip") THEN Def(zip, 1) ELSE Def(cat, 1)
    IN IF \E i, j \in 1..Len(p.opts) : i < j /\ p.opts[i][1] = p.opts[j][1] THEN Err
       ELSE IF Count(p, {"cat", "zip", "inplace"}) > 1 \/ Count(p, SlicerKeys) > 1 \/ Count(p, {"output", "patch-back"}) > 1 THEN Err
       ELSE IF stdins > 1 THEN Err
       ELSE IF all = "r" THEN Err
       ELSE IF Has(p, "inplace") THEN (IF \E j \in 1..Len(p.pos) : p.pos[j] \in StdinNames THEN Err ELSE Undef)
       ELSE IF all = "u" \/ (Has(p, "patch-back") /\ Has(p, "out-format")) THEN Undef
       ELSE IF Def(filler, 0) > 255 \/ word = 0 THEN Err
       ELSE IF word > LIM \/ (Has(p, "pad") /\ pad.v[1][1] + pad.v[1][2] > LIM) \/ (Has(p, "width") /\ WidthSpan(width.v[1].w, width.v[1].r) > LIM) THEN Undef
       ELSE Val([ins |-> ins.v, infmt |-> Def(infmt, "b"), mode |-> IF Has(p, "zip") THEN "zip" ELSE "cat", n |-> word, filler |-> Def(filler, 0),
                 cut |-> cut.v, pad |-> pad.v, patch |-> patch.v,
                 slicer |-> IF Has(p, "width") THEN [k |-> "width", w |-> width.v[1].w, r |-> width.v[1].r]
                            ELSE IF Has(p, "find") THEN [k |-> "find", pat |-> find.v[1]]
                            ELSE IF Has(p, "slice") THEN [k |-> "slice", rs |-> slice.v[1]]
                            ELSE IF Has(p, "guide") THEN [k |-> "guide", text |-> guide.v[1]]
                            ELSE IF Has(p, "walk") THEN [k |-> "walkx", ts |-> walk.v[1]]
                            ELSE [k |-> "width", w |-> 16, r |-> Full],
                 regex |-> regex.v, invert |-> invert.v, extend |-> extend.v, merge |-> merge.v, lines |-> lines.v, pback |-> pback.v,
                 outfmt |-> Def(outfmt, "x"),
                 cols |-> IF Has(p, "out-format") THEN 16
                          ELSE IF Has(p, "width") THEN WidthSpan(width.v[1].w, width.v[1].r)
                          ELSE IF Count(p, SlicerKeys) = 0 THEN 16 ELSE 0])

\* the outcome: [k |-> "v", v |-> bytes on stdout], Err, or Undef
CliRun(argv, w) ==
    LET p == TLCEval(ParseArgv(argv)) IN
    IF p.k # "v" THEN p
    ELSE LET c == TLCEval(Config(p, w)) IN
         IF c.k # "v" THEN c
         ELSE LET out(x) == LET r == Run(x) IN IF r.ok THEN Val(r.out) ELSE Err IN
              IF c.v.slicer.k # "walkx" THEN out(c.v)
              ELSE LET s2 == TLCEval(Stream2(c.v)) IN
                   IF ~s2.ok THEN Err
                   \* nothing is evaluated; whether expressions without a value are rejected beforehand is left open
                   ELSE IF s2.s = <<>> /\ \E j \in 1..Len(c.v.slicer.ts) : ~IsNum(EvalWalk(c.v.slicer.ts[j], <<>>, 0)) THEN Undef
                   ELSE LET g == TLCEval(WalkAll(c.v.slicer.ts, s2.s, 0)) IN
                        IF g.k # "name" THEN g
                        ELSE out([c.v EXCEPT !.slicer = [k |-> "given", segs |-> [j \in 1..(Len(g.t) \div 2) |-> <<g.t[2 * j - 1], g.t[2 * j]>>]]])
===========================================================================

------------------------------ MODULE NdPipe ------------------------------
(***************************************************************************)
(* The whole pipeline as a function of the command line and the inputs.     *)
(* A configuration c is a record (decoded from JSON):                       *)
(*   ins      sequence of inputs (bytes)       infmt  "b" "x" "nnx" "d"     *)
(*   mode     "cat" "zip"                      n      its argument          *)
(*   filler   0..255                                                        *)
(*   cut, pad, patch      <<>> or <<argument>>                              *)
(*   slicer   [k, ...]                                                      *)
(*   regex, invert, extend, merge, lines       <<>> or <<argument>>         *)
(*   outfmt   "x" "nnx" "d" "b"                cols   columns of the output *)
(*   pback    <<>> or <<command>>: --patch-back with an external command    *)
(***************************************************************************)
EXTENDS NdSlices

\* stages 1 and 2
Stream1(c) ==
    LET ins == [i \in 1..Len(c.ins) |-> ReadInput(c.infmt, c.ins[i], c.filler)]
        ss  == [i \in 1..Len(ins) |-> ins[i].s]
    IN IF \E i \in 1..Len(ins) : ~ins[i].ok THEN Bad
       ELSE [ok |-> TRUE, s |-> IF c.mode = "zip" THEN ZipInputs(ss, c.n, c.filler) ELSE CatInputs(ss, c.n, c.filler)]

Stream2(c) ==
    LET s1 == Stream1(c) IN
    IF ~s1.ok THEN Bad
    ELSE LET s2 == IF c.cut = <<>> THEN s1.s ELSE Cut(s1.s, c.cut[1])
             s3 == IF c.pad = <<>> THEN s2 ELSE Pad(s2, c.pad[1][1], c.pad[1][2], c.filler)
             p  == IF c.patch = <<>> THEN [ok |-> TRUE, recs |-> <<>>] ELSE ParseText(c.patch[1], 16)
         IN IF ~p.ok THEN Bad
            ELSE IF ~Disjoint(p.recs) THEN Bad
            ELSE [ok |-> TRUE, s |-> ApplyPatch(s3, p.recs)]

\* stage 3: [ok, segs]
Slices3(c, s) ==
    LET g == c.slicer  n == Len(s)  good(x) == [ok |-> TRUE, segs |-> x] IN
    CASE g.k = "width" -> IF WidthSpan(g.w, g.r) <= 0 THEN Bad ELSE good(WidthSegs(n, g.w, g.r))
      [] g.k = "find"  -> good(FindSegs(s, g.pat))
      [] g.k = "slice" -> good(SliceSegs(n, g.rs))
      [] g.k = "guide" -> LET p == ParseText(g.text, 16) IN IF p.ok THEN good(GuideSegs(n, p.recs)) ELSE Bad
      [] g.k = "walk"  -> WalkSegs(s, g.es)
      [] g.k = "given" -> good(g.segs)

\* stage 4
Stage4(c, n, s, segs) ==
    LET a == IF c.regex = <<>> THEN segs ELSE RegexSegs(s, segs, c.regex[1])
        b == IF c.invert = <<>> THEN a ELSE InvertSegs(n, a, c.invert[1])
        d == IF c.extend = <<>> THEN b ELSE ExtendSegs(n, b, c.extend[1])
        e == IF c.merge = <<>> THEN d ELSE MergeFold(d, c.merge[1])
    IN IF c.lines = <<>> THEN e ELSE LinesSegs(e, c.lines[1])
Slices4(c, s, segs) == Stage4(c, Len(s), s, segs)

AllSlices(c, s) ==
    LET g == Slices3(c, s) IN IF ~g.ok THEN Bad ELSE [ok |-> TRUE, segs |-> Slices4(c, s, g.segs)]

\* External commands of --patch-back as functions from text to text: the record's k names one of them.
\*   cat  identity            none  prints nothing and reads nothing     head n  the first n lines, the rest is not read
\*   odd  every second line   del   records without their array field    one     arrays cut to their first byte
\*   file prints t without reading    sink  reads everything, then prints t
\*   dump turns whatever it reads into insertions at the head of the stream, so that the result shows it (see Run)
UpTo(l, P(_)) == SubSeq(l, 1, FirstIdx(l, P, 1) - 1)
Command(cmd, text) ==
    LET ls == Lines(text)
        join(v) == Flat([k \in 1..Len(v) |-> Append(v[k], NL)])
    IN CASE cmd.k = "cat"  -> text
         [] cmd.k = "none" -> <<>>
         [] cmd.k = "head" -> join(SubSeq(ls, 1, Min2(cmd.n, Len(ls))))
         [] cmd.k = "odd"  -> join([k \in 1..((Len(ls) + 1) \div 2) |-> ls[2 * k - 1]])
         [] cmd.k = "del"  -> join([k \in 1..Len(ls) |-> LET i == FirstIdx(ls[k], LAMBDA c : c = BAR, 1) IN SubSeq(ls[k], 1, i - 2)])
         [] cmd.k = "one"  -> join([k \in 1..Len(ls) |-> LET i == FirstIdx(ls[k], LAMBDA c : c = BAR, 1) IN SubSeq(ls[k], 1, i + 3)])
         [] cmd.k \in {"file", "sink"} -> cmd.t

\* stage 5: `--output -' or `--patch-back': [ok, out]
Run(c) ==
    LET s2 == Stream2(c) IN
    IF ~s2.ok THEN Bad
    ELSE LET g == AllSlices(c, s2.s) IN
         IF ~g.ok THEN Bad
         ELSE IF c.pback = <<>> THEN [ok |-> TRUE, out |-> Format(c.outfmt, c.cols, s2.s, g.segs)]
         ELSE IF c.pback[1].k = "dump" THEN [ok |-> TRUE, out |-> Format("x", c.cols, s2.s, g.segs) \o s2.s]
         ELSE LET p == ParseText(Command(c.pback[1], Format("x", c.cols, s2.s, g.segs)), 16) IN
              IF ~p.ok THEN Bad
              ELSE IF ~Disjoint(p.recs) THEN Bad
              ELSE [ok |-> TRUE, out |-> ApplyPatch(s2.s, p.recs)]
===========================================================================

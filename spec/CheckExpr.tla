----------------------------- MODULE CheckExpr ----------------------------
(***************************************************************************)
(* Trace validation of the expression engine.  An entry is                  *)
(*   kind "num"    t: an argument N           obs: the number, or rejected; *)
(*                 "big" from 100000 on                                     *)
(*   kind "templ"  t: an output template, n, l   obs: the rendered text     *)
(*   kind "walk"   ts: the texts of --walk, s: stream   obs: the bounds of    *)
(*                 the slices, flattened, or rejected                       *)
(*   kind "range"  t: S..E as two texts, len  obs: the slice of 0..len      *)
(***************************************************************************)
EXTENDS NdTempl, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE)
NCHUNK == 48

\* what the specification allows: [k |-> "u"], [k |-> "r"] or [k |-> "name", t |-> text]
Expect(e) ==
    CASE e.kind = "num" ->
            LET x == EvalConst(e.t) IN
            IF ~IsNum(x) THEN x ELSE IF x.neg THEN Err
            ELSE [k |-> "name", t |-> IF ToInt(x) >= 100000 THEN <<98, 105, 103>> ELSE DecText(x)]
      [] e.kind = "templ" -> RenderTempl(Pieces(e.t, 1), e.n, e.l)
      [] e.kind = "walk" -> IF \E j \in 1..Len(e.ts) : ~Parse(e.ts[j], WalkVars).ok THEN Err ELSE WalkAll(e.ts, e.s, 0)
      [] e.kind = "range" ->
            LET a == Bound1(e.t, "s")  b == Bound1(e.t2, "e") IN
            IF a.k = "r" \/ b.k = "r" THEN Err
            ELSE IF a.k = "u" \/ b.k = "u" THEN Undef
            ELSE LET p == Clamp((IF a.a = "s" THEN 0 ELSE e.len) + ToInt(a.o), 0, e.len)
                     q == Clamp((IF b.a = "s" THEN 0 ELSE e.len) + ToInt(b.o), 0, e.len)
                 IN [k |-> "name", t |-> IF p < q THEN <<p, q>> ELSE <<>>]

Judge(e) ==
    LET x == Expect(e) IN
    IF x.k = "u" THEN PrintT(<<"UNDEFINED", e.id>>)
    ELSE IF (IF x.k = "r" THEN e.rej ELSE ~e.rej /\ e.obs = x.t) THEN TRUE
    ELSE PrintT(<<"DISAGREE", e.id, IF x.k = "r" THEN <<-1>> ELSE x.t>>)

VARIABLES chunk, i
Init == chunk \in 0..(NCHUNK - 1) /\ i = chunk
Next == /\ i < Len(T)
        /\ Judge(T[i + 1])
        /\ i' = i + NCHUNK
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i>>
===========================================================================

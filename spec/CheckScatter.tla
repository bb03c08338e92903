---------------------------- MODULE CheckScatter ---------------------------
(***************************************************************************)
(* Trace validation of `--output TEMPLATE'.  An entry is                    *)
(*   cfg     the pipeline up to the slices (NdPipe)                         *)
(*   t       the template                                                   *)
(*   pre     the files in the working directory before: <<name, content>>   *)
(*   dirs    the directories in it                                          *)
(*   rej     nd failed                                                      *)
(*   out     stdout                                                         *)
(*   post    the files afterwards                                           *)
(* Every slice goes to the file its rendered name tells, in order; files    *)
(* start empty; "" and "-" are the standard output; nothing else changes.   *)
(***************************************************************************)
EXTENDS NdPipe, NdTempl, Json, IOUtils, TLC

T == JsonDeserialize(IOEnv.TRACE)
NCHUNK == 48

SLASH == 47
\* the directory part of a path, <<>> if none
DirOf(n) == LET h == {k \in 1..Len(n) : n[k] = SLASH} IN IF h = {} THEN <<>> ELSE SubSeq(n, 1, (CHOOSE k \in h : \A j \in h : j <= k) - 1)
IsStdout(n) == n = <<>> \/ n = <<45>>
\* a path that can be opened for writing
Creatable(e, n) ==
    /\ n[Len(n)] # SLASH
    /\ Len(n) <= 255
    /\ \A k \in 1..Len(e.dirs) : e.dirs[k] # n
    /\ DirOf(n) = <<>> \/ \E k \in 1..Len(e.dirs) : e.dirs[k] = DirOf(n)

Expect(e) ==
    LET s2 == TLCEval(Stream2(e.cfg)) IN
    IF ~s2.ok THEN [k |-> "r"]
    ELSE LET g == AllSlices(e.cfg, s2.s)
             ps == TLCEval(Pieces(e.t, 1)) IN
    IF ~g.ok \/ \E j \in 1..Len(ps) : ps[j].k = "bad" THEN [k |-> "r"]
    ELSE LET nm == TLCEval([j \in 1..Len(g.segs) |-> RenderTempl(ps, g.segs[j][1], j - 1)])
             tx == TLCEval([j \in 1..Len(g.segs) |-> Format(e.cfg.outfmt, e.cfg.cols, s2.s, <<g.segs[j]>>)]) IN
    IF \E j \in 1..Len(nm) : nm[j].k = "u" THEN [k |-> "u"]
    ELSE IF \E j \in 1..Len(nm) : nm[j].k = "r" THEN [k |-> "r"]
    ELSE IF Len(nm) = 0 /\ (\A j \in 1..Len(ps) : ps[j].k = "lit") /\ (IF ps = <<>> THEN FALSE ELSE ~IsStdout(ps[1].t) /\ ~Creatable(e, ps[1].t)) THEN [k |-> "u"]
    ELSE IF \E j \in 1..Len(nm) : ~IsStdout(nm[j].t) /\ ~Creatable(e, nm[j].t) THEN [k |-> "r"]
    ELSE LET targets == {nm[j].t : j \in 1..Len(nm)} \ {<<>>, <<45>>}
             text(P(_)) == LET w == SelectSeq([j \in 1..Len(nm) |-> j], LAMBDA j : P(nm[j].t)) IN Flat([j \in 1..Len(w) |-> tx[w[j]]])
             \* whether a file without a slice is made or emptied when all slices have the same target is left open
             fixed == \A j \in 1..Len(ps) : ps[j].k = "lit"
             name  == IF ps = <<>> THEN <<>> ELSE ps[1].t
             open  == IF fixed /\ Len(nm) = 0 /\ ~IsStdout(name) THEN {name} ELSE {}
             kept  == {e.pre[k] : k \in {k \in 1..Len(e.pre) : e.pre[k][1] \notin targets}}
         IN [k |-> "v", out |-> text(IsStdout), open |-> open,
             files |-> kept \cup {<<n, text(LAMBDA x : x = n)>> : n \in targets}]

Agrees(e, x) ==
    LET post == {e.post[k] : k \in 1..Len(e.post)}
        but(fs) == {f \in fs : f[1] \notin x.open}
    IN ~e.rej /\ e.out = x.out /\ but(post) = but(x.files)

Judge(e) ==
    LET x == Expect(e) IN
    IF x.k = "u" THEN PrintT(<<"UNDEFINED", e.id>>)
    ELSE IF x.k = "r" THEN (IF e.rej THEN TRUE ELSE PrintT(<<"DISAGREE", e.id, "r", <<>>, <<>>>>))
    ELSE IF Agrees(e, x) THEN TRUE
    ELSE PrintT(<<"DISAGREE", e.id, "v", x.out, SetToSeq(x.files)>>)

VARIABLES chunk, i
Init == chunk \in 0..(NCHUNK - 1) /\ i = chunk
Next == /\ i < Len(T)
        /\ Judge(T[i + 1])
        /\ i' = i + NCHUNK
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i>>
===========================================================================

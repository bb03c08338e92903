---------------------------- MODULE CheckChain ----------------------------
(***************************************************************************)
(* "A hexdump is also a binary patch": what nd dumps can be read back.      *)
(* A trace entry is [id, cfg, dump, kind, obs]: `dump' is what the real     *)
(* program wrote for the command line cfg, obs the outcome of feeding it    *)
(* back, either as an input (kind "restore": --in-format, -f b) or as a     *)
(* patch to the stream it was made from (kind "patch").  The expected       *)
(* outcome is stated on the stream and its slices only, not on the text.    *)
(***************************************************************************)
EXTENDS NdPipe, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
NCHUNK == 48

VARIABLES chunk, i, bad

\* slices as pairs: in order and without overlaps
Apart(segs) == \A k \in 1..(Len(segs) - 1) : segs[k][2] <= segs[k + 1][1]

\* the bytes of the slices at their offsets, filler elsewhere, up to the end of the last slice
Covered(s, segs, filler) ==
    IF segs = <<>> THEN <<>>
    ELSE [p \in 1..segs[Len(segs)][2] |-> IF \E k \in 1..Len(segs) : segs[k][1] < p /\ p <= segs[k][2] THEN s[p] ELSE filler]

Expected(t) ==
    LET s == Stream2(t.cfg).s
        g == AllSlices(t.cfg, s).segs
    IN CASE t.kind = "patch" -> IF Apart(g) THEN [ok |-> TRUE, out |-> s] ELSE Bad
         [] t.cfg.outfmt = "nnx" -> [ok |-> TRUE, out |-> Flat([k \in 1..Len(g) |-> Sub(s, g[k][1], g[k][2])])]
         [] OTHER -> IF Apart(g) THEN [ok |-> TRUE, out |-> Covered(s, g, t.cfg.filler)] ELSE Bad

Allowed(r, o) == IF r.ok THEN o.kind = "out" /\ o.out = r.out ELSE o.kind \in {"err", "panic"}

\* the text names the slices and their bytes, in order
Faithful(t) ==
    LET s == Stream2(t.cfg).s
        g == AllSlices(t.cfg, s).segs
        p == ParseText(t.dump, IF t.cfg.outfmt = "d" THEN 10 ELSE 16)
    IN /\ p.ok
       /\ Len(p.recs) = Len(g)
       /\ \A k \in 1..Len(g) : LET r == p.recs[k] IN r.off = g[k][1] /\ r.len = g[k][2] - g[k][1] /\ r.arr = Sub(s, g[k][1], g[k][2])

Judge(t) ==
    LET r == Expected(t)
        a == Allowed(r, t.obs)
    IN /\ (IF a THEN TRUE ELSE PrintT(<<"DISAGREE", t.id, IF r.ok THEN r.out ELSE <<-1>>>>))
       /\ (IF Faithful(t) THEN TRUE ELSE PrintT(<<"UNFAITHFUL", t.id>>))
       /\ bad' = bad + (IF a THEN 0 ELSE 1)

Init == chunk \in 0..(NCHUNK - 1) /\ i = chunk + 1 /\ bad = 0
Next ==
    /\ i <= Len(Trace)
    /\ Judge(Trace[i])
    /\ i' = i + NCHUNK
    /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
===========================================================================

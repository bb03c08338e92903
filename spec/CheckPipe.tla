------------------------------ MODULE CheckPipe ------------------------------
(***************************************************************************)
(* Trace validation: every recorded run of the real program must be the run *)
(* the specification allows.  A trace entry is [id, cfg, obs] where obs is  *)
(* the sequence of distinct outcomes that the executions of the same command *)
(* line on the same contents had (different builds, deliveries, consumers). *)
(* The trace is split into NCHUNK parts that TLC's workers take in parallel; *)
(* a disagreement is printed together with the outcome that was expected.   *)
(***************************************************************************)
EXTENDS NdPipe, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
NCHUNK == 48

VARIABLES chunk, i, bad

\* an outcome o: [kind |-> "out", out |-> bytes] | [kind |-> "err"] | other kinds (panic, hang, ...)
Allowed(r, o) == IF r.ok THEN o.kind = "out" /\ o.out = r.out ELSE o.kind \in {"err", "panic"}

\* a slice list is recorded by the program in (start, end) order and within the stream
WellFormed(c) ==
    \A s2 \in {Stream2(c)} :
    s2.ok => \A g \in {AllSlices(c, s2.s)} :
             g.ok => /\ SegsSorted(g.segs)
                     /\ \A k \in 1..Len(g.segs) : 0 <= g.segs[k][1] /\ g.segs[k][1] <= g.segs[k][2] /\ g.segs[k][2] <= Len(s2.s)

Judge(t) ==
    \A r \in {Run(t.cfg)} :
    \A wrong \in {{k \in 1..Len(t.obs) : ~Allowed(r, t.obs[k])}} :
       /\ \A k \in wrong : PrintT(<<"DISAGREE", t.id, k, t.obs[k].kind, IF r.ok THEN r.out ELSE <<-1>>>>)
       /\ (IF WellFormed(t.cfg) THEN TRUE ELSE PrintT(<<"ILLFORMED", t.id>>))
       /\ bad' = bad + Cardinality(wrong)

Init == chunk \in 0..(NCHUNK - 1) /\ i = chunk + 1 /\ bad = 0
Next ==
    /\ i <= Len(Trace)
    /\ Judge(Trace[i])
    /\ i' = i + NCHUNK
    /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
==============================================================================

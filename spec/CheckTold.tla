----------------------------- MODULE CheckTold -----------------------------
(***************************************************************************)
(* Trace validation: runs in which calls fail, transfers are cut short or   *)
(* the reader goes away.  An entry is                                       *)
(*   cfg     the pipeline and its inputs                                    *)
(*   right   FALSE if something that nd needs cannot be had at all          *)
(*   obs     what was seen: [status, out, closed, fault]                    *)
(***************************************************************************)
EXTENDS NdPipe, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE)
NCHUNK == 48
D == INSTANCE Delivery WITH L <- 0, INF <- FALSE, B <- 1, R <- 0, DESIGN <- "real", src <- 0, eof <- TRUE, buf <- 0, lost <- 0, out <- 0, reader <- "", status <- "", fault <- FALSE

Judge(e) ==
    \A r \in {IF e.right THEN Run(e.cfg) ELSE Bad} :
    \A k \in 1..Len(e.obs) :
        LET o == e.obs[k]
            n == Len(o.out)
            prefix == r.ok /\ n <= Len(r.out) /\ o.out = SubSeq(r.out, 1, n)
        IN IF D!Told(o.status, r.ok, prefix, r.ok /\ o.out = r.out, o.closed, o.fault) THEN TRUE
           ELSE PrintT(<<"DISAGREE", e.id, k, IF r.ok THEN r.out ELSE <<-1>>>>)

VARIABLES chunk, i
Init == chunk \in 0..(NCHUNK - 1) /\ i = chunk
Next == /\ i < Len(T)
        /\ Judge(T[i + 1])
        /\ i' = i + NCHUNK
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i>>
===========================================================================

------------------------------ MODULE CheckRope ------------------------------
(***************************************************************************)
(* What the program must print for streams of some megabytes: TLC evaluates *)
(* the command line on ropes and prints the slices and what they stand for. *)
(* The runner replaces the pieces by the bytes of the inputs and compares.  *)
(***************************************************************************)
EXTENDS NdRope, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
NCHUNK == 16

VARIABLES chunk, i

Judge(t) ==
    \A r \in {TLCEval(RStream2(t))} :
    \A segs \in {TLCEval(RSlices(t, RLen(r)))} :
        PrintT(<<"ROPE", t.id, segs, [k \in 1..Len(segs) |-> RSub(r, segs[k][1], segs[k][2])]>>)

Init == chunk \in 0..(NCHUNK - 1) /\ i = chunk + 1
Next ==
    /\ i <= Len(Trace)
    /\ Judge(Trace[i])
    /\ i' = i + NCHUNK
    /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i>>
==============================================================================

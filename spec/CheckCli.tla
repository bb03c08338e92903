------------------------------ MODULE CheckCli -----------------------------
(***************************************************************************)
(* Trace validation of whole command lines.  An entry is [id, argv, files,  *)
(* stdin, rx, rej, out]: what was given, and whether nd failed or what it   *)
(* wrote.                                                                   *)
(***************************************************************************)
EXTENDS NdCli, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE)
NCHUNK == 48

Judge(e) ==
    LET x == CliRun(e.argv, e) IN
    IF x.k = "u" THEN PrintT(<<"UNDEFINED", e.id>>)
    ELSE IF (IF x.k = "r" THEN e.rej ELSE ~e.rej /\ e.out = x.v) THEN TRUE
    ELSE PrintT(<<"DISAGREE", e.id, IF x.k = "r" THEN <<-1>> ELSE x.v>>)

VARIABLES chunk, i
Init == chunk \in 0..(NCHUNK - 1) /\ i = chunk
Next == /\ i < Len(T)
        /\ Judge(T[i + 1])
        /\ i' = i + NCHUNK
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i>>
===========================================================================

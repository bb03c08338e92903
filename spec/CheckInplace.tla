---------------------------- MODULE CheckInplace ----------------------------
(***************************************************************************)
(* Trace validation of `--inplace'.  An entry is                            *)
(*   cfg     the pipeline (without inputs)                                  *)
(*   names   how often each file is named is of no importance: files and    *)
(*           their contents, in the order of their names; <<>> or <<bytes>> *)
(*   keeps   the output goes elsewhere: the files are not changed           *)
(*   obs     what was seen: [status, fault, post, clean] with post as files *)
(* A file's new contents are what the pipeline yields for it alone.         *)
(***************************************************************************)
EXTENDS NdPipe, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE)
NCHUNK == 48
I == INSTANCE Inplace WITH N <- 1, M <- 1, BAD <- {}, DESIGN <- "real", cur <- 1, phase <- "", tmp <- 0, disk <- <<>>, status <- "", fault <- FALSE

\* the new contents of the files
News(e) ==
    LET run(c) == IF c.ins[1] = <<>> THEN Bad ELSE Run([c EXCEPT !.ins = c.ins[1]])
    IN [f \in 1..Len(e.files) |-> CHOOSE r \in {run([e.cfg EXCEPT !.ins = <<x>>]) : x \in {e.files[f]}} : TRUE]

Said(e, new, o) ==
    [f \in 1..Len(e.files) |->
        (IF o.post[f] = e.files[f] THEN {"old"} ELSE {}) \cup
        (IF e.keeps THEN (IF o.post[f] = e.files[f] THEN {"new"} ELSE {})
         ELSE IF new[f].ok /\ o.post[f] = <<new[f].out>> THEN {"new"} ELSE {})]

Judge(e) ==
    \A new \in {News(e)} :        \* (binds the value, where LET would evaluate it again and again)
    \A bad \in {{f \in 1..Len(e.files) : ~new[f].ok}} :
    \A k \in 1..Len(e.obs) :
        LET o == e.obs[k] IN
        IF I!Seen(o.status, Said(e, new, o), bad, o.fault, o.clean) THEN TRUE
        ELSE PrintT(<<"DISAGREE", e.id, k, SetToSeq(bad), [f \in 1..Len(new) |-> IF new[f].ok THEN new[f].out ELSE <<-1>>]>>)

VARIABLES chunk, i
Init == chunk \in 0..(NCHUNK - 1) /\ i = chunk
Next == /\ i < Len(T)
        /\ Judge(T[i + 1])
        /\ i' = i + NCHUNK
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i>>
===========================================================================

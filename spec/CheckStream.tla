---------------------------- MODULE CheckStream ----------------------------
(***************************************************************************)
(* Trace validation of runs on inputs without end.  An entry is             *)
(*   cfg    the pipeline; the inputs without end are given up to some point *)
(*   short  how many bytes of every input make the shorter truncations:     *)
(*          what the outputs for all of them have in common does not depend *)
(*          on what follows (a single one may agree by chance, as the       *)
(*          offsets of two different last lines do in their leading zeros)  *)
(*   need   how many slices must have been seen before --lines is through   *)
(*   obs    [status, out, closed]: the reader closed after it had out, or   *)
(*          nd ended by itself                                              *)
(*   finite the output ends even if the input does not                      *)
(*   ends   and nd has to find that out                                     *)
(***************************************************************************)
EXTENDS NdPipe, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE)
NCHUNK == 48

CommonLen(a, b) ==
    LET n == Min2(Len(a), Len(b))
        d == {k \in 1..n : a[k] # b[k]}
    IN IF d = {} THEN n ELSE (CHOOSE k \in d : \A j \in d : k <= j) - 1
Is(out, ref, n) == \A k \in 1..n : out[k] = ref[k]

Parts(e) == [j \in 1..Len(e.short) |-> [e.cfg EXCEPT !.ins = [i \in 1..Len(e.cfg.ins) |-> SubSeq(e.cfg.ins[i], 1, e.short[j][i])]]]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

Judge(e) ==
    \A full \in {Run(e.cfg)} :
    \A cuts \in {TLCEval(Parts(e))} :
    \A parts \in {TLCEval([j \in 1..Len(cuts) |-> Run(cuts[j])])} :
        IF ~full.ok \/ \E j \in 1..Len(parts) : ~parts[j].ok THEN PrintT(<<"UNDEFINED", e.id>>)
        ELSE
        \A lines \in {IF e.need = 0 THEN 0 ELSE Len(AllSlices([cuts[1] EXCEPT !.lines = <<>>], Stream2(cuts[1]).s).segs)} :
        \A c \in {Least({CommonLen(full.out, parts[j].out) : j \in 1..Len(parts)})} :
        LET same  == \A j \in 1..Len(parts) : full.out = parts[j].out
            whole == same /\ lines >= e.need       \* nothing that follows matters
            judge(o) ==
                CASE o.status = "ok" /\ o.closed  -> IF Is(o.out, full.out, Min2(c, Len(o.out))) /\ (whole => Len(o.out) <= c) THEN "y" ELSE "n"
                  [] o.status = "ok" /\ ~o.closed -> IF whole /\ o.out = full.out THEN "y"
                                                     \* the end of the output is farther away than the truncations reach
                                                     ELSE IF e.finite /\ ~whole /\ Is(o.out, full.out, Min2(c, Len(o.out))) THEN "u" ELSE "n"
                  \* nothing more may ever come, and nd need not know
                  [] o.status \in {"waits", "hang"} -> IF ~e.ends /\ (Len(o.out) >= c \/ same) /\ Is(o.out, full.out, Min2(c, Len(o.out))) THEN "u" ELSE "n"
                  [] OTHER -> "n"
        IN \A k \in 1..Len(e.obs) :
              LET v == judge(e.obs[k]) IN
              IF v = "y" THEN (IF c < Len(e.obs[k].out) THEN PrintT(<<"PARTLY", e.id, c>>) ELSE TRUE)
              ELSE IF v = "u" THEN PrintT(<<"UNDEFINED", e.id>>)
              ELSE PrintT(<<"DISAGREE", e.id, k, whole, SubSeq(full.out, 1, IF whole THEN Len(full.out) ELSE c)>>)

VARIABLES chunk, i
Init == chunk \in 0..(NCHUNK - 1) /\ i = chunk
Next == /\ i < Len(T)
        /\ Judge(T[i + 1])
        /\ i' = i + NCHUNK
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i>>
===========================================================================

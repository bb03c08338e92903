----------------------------- MODULE CheckProto -----------------------------
(***************************************************************************)
(* Trace validation of single stages: every fill and every take that a       *)
(* recorded stage went through must be a transition that the protocol        *)
(* (NdProto) allows for the stream (and the slices) the stage stands for.    *)
(* An entry is [id, cfg, kind, ev, end, tail]: kind "stream" (the stage that cfg   *)
(* ends with makes a stream), "out" (it makes the output), "segs"; end       *)
(* "done", "err", or what else became of it.                                 *)
(* st is the state of the protocol, ref what the stage stands for; a         *)
(* recorded event that is not allowed is printed and ends its entry.         *)
(***************************************************************************)
EXTENDS NdPipe, NdProto, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE)
NCHUNK == 48

VARIABLES chunk, i, j, ref, st
vars == <<chunk, i, j, ref, st>>

\* the stream, the slices
Denotes(t) ==
    IF t.kind = "out" THEN LET r == Run(t.cfg) IN IF r.ok THEN [ok |-> TRUE, s |-> r.out, segs |-> <<>>] ELSE Bad
    ELSE LET s2 == Stream2(t.cfg) IN
         IF ~s2.ok THEN Bad
         ELSE IF t.kind = "stream" THEN [ok |-> TRUE, s |-> s2.s, segs |-> <<>>]
         ELSE LET g == AllSlices(t.cfg, s2.s) IN IF g.ok THEN [ok |-> TRUE, s |-> s2.s, segs |-> g.segs] ELSE Bad

None == [ok |-> FALSE]
Init == chunk \in 0..(NCHUNK - 1) /\ i = chunk + 1 /\ j = 0 /\ ref = None /\ st = Start

NextEntry == i' = i + NCHUNK /\ j' = 0 /\ ref' = None /\ st' = Start
Disagree(what) == PrintT(<<"DISAGREE", T[i].id, j, what>>) /\ NextEntry

Load ==
    /\ j = 0
    /\ \E r \in {Denotes(T[i])} :
          IF r.ok THEN IF T[i].end = "done" THEN ref' = r /\ j' = 1 /\ st' = (IF T[i].kind = "segs" THEN SegStart ELSE Start) /\ UNCHANGED i
                       ELSE Disagree(T[i].end)
          ELSE IF T[i].end \in {"err", "panic"} THEN NextEntry ELSE Disagree("accepted")
Event ==
    /\ j > 0 /\ j <= Len(T[i].ev)
    /\ \E e \in {T[i].ev[j]} :
          LET go(ok, next) == IF ok THEN st' = next /\ j' = j + 1 /\ UNCHANGED <<i, ref>> ELSE Disagree(e.k) IN
          IF T[i].kind = "segs"
          THEN IF e.k = "fill" THEN go(SegFill(ref.s, ref.segs, T[i].tail, st, e), AfterSegFill(st, e)) ELSE go(SegTake(st, e), AfterSegTake(st, e))
          ELSE IF e.k = "fill" THEN go(ByteFill(ref.s, st, e), AfterByteFill(st, e)) ELSE go(ByteTake(st, e), AfterByteTake(st, e))
\* the stage has been followed to its end: everything was taken
End == j > Len(T[i].ev) /\ (IF st.eof /\ st.vis = 0 THEN NextEntry ELSE Disagree("end"))

Next == i <= Len(T) /\ (Load \/ Event \/ End) /\ UNCHANGED chunk
Spec == Init /\ [][Next]_vars
===========================================================================

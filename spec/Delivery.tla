------------------------------ MODULE Delivery ------------------------------
(***************************************************************************)
(* How the output of a run gets out: a source of L units (or without end,   *)
(* INF), a buffer that is filled to B units before it is written, writes    *)
(* that may be short, a reader that goes away after R units, and a failure  *)
(* of any read or write.                                                    *)
(* DESIGN: "real", or one that is known to be wrong                         *)
(*   "eof"     a failing read is taken for the end of the input             *)
(*   "lossy"   a short write is taken for a whole one                       *)
(*   "deaf"    a failing write is ignored                                   *)
(*   "hoard"   nothing is written before the end of the input               *)
(*   "loud"    a reader that goes away is an error                          *)
(* Told(...) is the contract on what can be observed when nd has ended; it  *)
(* judges the recorded runs of the real program (CheckTold).                *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* status "ok" (exit 0), "err" (exit other than 0); right: the specification yields an output; prefix, complete: what arrived is a prefix
\* of it, is all of it; closed: the reader has gone; fault: a call was made to fail
Told(status, right, prefix, complete, closed, fault) ==
    CASE status = "ok"  -> right /\ (complete \/ (closed /\ prefix))
      [] status = "err" -> right => fault /\ prefix
      [] OTHER -> FALSE

CONSTANTS L, INF, B, R, DESIGN
VARIABLES src, eof, buf, lost, out, reader, status, fault
vars == <<src, eof, buf, lost, out, reader, status, fault>>

Init == src = 0 /\ eof = FALSE /\ buf = 0 /\ lost = 0 /\ out = 0 /\ reader = "open" /\ status = "run" /\ fault = FALSE
Run == status = "run"
Filling == Run /\ ~eof /\ (buf < B \/ DESIGN = "hoard")
Read == /\ Filling /\ (INF \/ src < L)
        /\ \E n \in 1..(IF INF THEN B ELSE L - src) : n <= B /\ src' = src + n /\ buf' = buf + n
        /\ UNCHANGED <<eof, lost, out, reader, status, fault>>
End == Filling /\ ~INF /\ src = L /\ eof' = TRUE /\ UNCHANGED <<src, buf, lost, out, reader, status, fault>>
ReadFails == /\ Filling /\ ~fault /\ fault' = TRUE
             /\ (IF DESIGN = "eof" THEN eof' = TRUE /\ UNCHANGED status ELSE status' = "err" /\ UNCHANGED eof)
             /\ UNCHANGED <<src, buf, lost, out, reader>>
Writing == Run /\ buf > 0 /\ ~Filling
Write == /\ Writing /\ reader = "open"
         /\ \E n \in 1..buf :
               /\ out' = out + (IF out + n <= R THEN n ELSE R - out)
               /\ reader' = (IF out + n >= R THEN "closed" ELSE reader)
               /\ buf' = (IF DESIGN = "lossy" THEN 0 ELSE buf - n)
               /\ lost' = lost + (IF DESIGN = "lossy" THEN buf - n ELSE 0)
         /\ UNCHANGED <<src, eof, status, fault>>
NoReader == Writing /\ reader = "closed" /\ status' = (IF DESIGN = "loud" THEN "err" ELSE "ok") /\ UNCHANGED <<src, eof, buf, lost, out, reader, fault>>
WriteFails == /\ Writing /\ reader = "open" /\ ~fault /\ fault' = TRUE
              /\ (IF DESIGN = "deaf" THEN buf' = 0 /\ lost' = lost + buf /\ UNCHANGED status ELSE status' = "err" /\ UNCHANGED <<buf, lost>>)
              /\ UNCHANGED <<src, eof, out, reader>>
Exit == Run /\ eof /\ buf = 0 /\ status' = "ok" /\ UNCHANGED <<src, eof, buf, lost, out, reader, fault>>
Next == Read \/ End \/ ReadFails \/ Write \/ NoReader \/ WriteFails \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ End \/ Write \/ NoReader \/ Exit)

\* (an endless source is followed as far as the reader and a buffer can take it)
Bounded == src <= R + 4 * B
Contract == status # "run" => Told(status, TRUE, lost = 0, ~INF /\ out = L /\ lost = 0, reader = "closed", fault)
\* what is in memory does not depend on the length of the source
Memory == buf <= 2 * B
Ends == <>(status # "run")
===========================================================================

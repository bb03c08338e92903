------------------------------ MODULE Inplace ------------------------------
(***************************************************************************)
(* `--inplace': the state of the directory while nd rewrites N files, one   *)
(* after the other, each in M writes, with a failure or a kill possible at  *)
(* every step.  disk[f] is "old" (not touched), "part" (some of the new     *)
(* contents) or "new"; tmp is the number of writes in the temporary file,   *)
(* or -1 if there is none.                                                  *)
(* BAD is the set of files whose pipeline fails (rejected contents, missing *)
(* file).  DESIGN tells the real protocol from the ones that are known to   *)
(* be wrong:                                                                *)
(*   "real"    temporary file, removed on failure, renamed when complete    *)
(*   "direct"  the file itself is written                                   *)
(*   "early"   renamed when it is created                                   *)
(*   "litter"  the temporary file stays on failure                          *)
(*   "goon"    a failure does not stop the run                              *)
(* Seen(...) is the contract on what can be observed at the end; it judges  *)
(* the recorded runs of the real program (CheckInplace).                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* status "ok" (exit 0) "err" (exit other than 0) "kill"; st[f] the set of contents that file f may be said to have: \subseteq {"old", "new"};
\* bad: the files that cannot be processed; fault: something was made to fail; clean: everything else is as it was
Prefixed(st, k) == \A f \in 1..Len(st) : IF f < k THEN "new" \in st[f] ELSE "old" \in st[f]
Seen(status, st, bad, fault, clean) ==
    LET first == IF bad = {} THEN Len(st) + 1 ELSE CHOOSE f \in bad : \A g \in bad : f <= g IN
    CASE status = "ok"   -> bad = {} /\ clean /\ Prefixed(st, Len(st) + 1)
      [] status = "err"  -> (bad # {} \/ fault) /\ clean /\ \E k \in 1..first : Prefixed(st, k)
      [] status = "kill" -> \E k \in 1..first : Prefixed(st, k)
      [] OTHER -> FALSE

CONSTANTS N, M, BAD, DESIGN
VARIABLES cur, phase, tmp, disk, status, fault
vars == <<cur, phase, tmp, disk, status, fault>>

Init == cur = 1 /\ phase = "open" /\ tmp = -1 /\ disk = [f \in 1..N |-> "old"] /\ status = "run" /\ fault = FALSE

Running == status = "run"
\* the error path
Fail == IF DESIGN = "goon"
        THEN cur' = cur + 1 /\ phase' = "open" /\ tmp' = -1 /\ UNCHANGED <<disk, status>>
        ELSE status' = "err" /\ tmp' = (IF DESIGN = "litter" THEN tmp ELSE -1) /\ UNCHANGED <<cur, phase, disk>>
Work == Running /\ cur <= N
Open == Work /\ phase = "open" /\ phase' = "create" /\ UNCHANGED <<cur, tmp, disk, status, fault>>
Create == /\ Work /\ phase = "create" /\ phase' = "write" /\ tmp' = 0
          /\ disk' = [disk EXCEPT ![cur] = IF DESIGN \in {"direct", "early"} THEN "part" ELSE @]
          /\ UNCHANGED <<cur, status, fault>>
Write == /\ Work /\ phase = "write" /\ tmp < M /\ ~(cur \in BAD /\ tmp = M - 1)
         /\ tmp' = tmp + 1
         /\ disk' = [disk EXCEPT ![cur] = IF DESIGN \notin {"direct", "early"} THEN @ ELSE IF tmp' = M THEN "new" ELSE "part"]
         /\ UNCHANGED <<cur, phase, status, fault>>
Reject == Work /\ phase = "write" /\ cur \in BAD /\ Fail /\ UNCHANGED fault
Rename == /\ Work /\ phase = "write" /\ tmp = M
          /\ disk' = [disk EXCEPT ![cur] = "new"] /\ tmp' = -1 /\ cur' = cur + 1 /\ phase' = "open"
          /\ UNCHANGED <<status, fault>>
\* any single step may fail
Fault == Work /\ ~fault /\ fault' = TRUE /\ Fail
Kill == Running /\ status' = "kill" /\ UNCHANGED <<cur, phase, tmp, disk, fault>>
Exit == Running /\ cur > N /\ status' = "ok" /\ UNCHANGED <<cur, phase, tmp, disk, fault>>
Next == Open \/ Create \/ Write \/ Reject \/ Rename \/ Fault \/ Kill \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Open \/ Create \/ Write \/ Reject \/ Rename \/ Exit)

Said == [f \in 1..N |-> IF disk[f] = "part" THEN {} ELSE {disk[f]}]
\* every file is entirely old or entirely new, whatever the moment
Atomic == \A f \in 1..N : disk[f] # "part"
Order == \A f, g \in 1..N : f < g /\ disk[g] = "new" => disk[f] = "new"
Contract == status # "run" => Seen(status, Said, BAD, fault, tmp = -1)
Ends == <>(status # "run")
===========================================================================

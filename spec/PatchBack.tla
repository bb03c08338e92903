------------------------------ MODULE PatchBack ------------------------------
(***************************************************************************)
(* The concurrent part of nd: --patch-back.  Four processes share bounded   *)
(* pipes and a cache of the original stream:                                *)
(*                                                                          *)
(*   slicer   walks over the stream, appends what it has walked over to the *)
(*            cache, renders the slices and writes them to the command      *)
(*   command  any program: reads its input or not, writes its records in    *)
(*            any interleaving with its reads, may close its input early    *)
(*   drainer  moves the command's output to an unbounded queue              *)
(*   main     applies the records to the cached stream                      *)
(*                                                                          *)
(* The stream is made of N chunks; the slices cover the first E of them     *)
(* (slicers like --slice stop early); a record r \in Recs replaces chunk r  *)
(* by <<"P", r>>.  The switches describe design variants: with all of them  *)
(* TRUE this is the present design, the others are kept to show that the    *)
(* properties are sensitive (and document defects that were repaired).      *)
(* With FAILS the slicer may die of an unreadable guide, say, at any point; *)
(* the end of the pipe it leaves behind must not look like the end of the   *)
(* slices: a command that echoes them (ECHO) would print records for some   *)
(* of them and then nothing, and the rest of the stream came out unchanged. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, CAPIN, CAPOUT,
          WAITS,      \* the reader of the cache waits for the slicer (and reads the source after it has gone)
          TOLERANT,   \* a command that does not read its input does not stop the slicer
          FAILS,      \* the slicer may fail
          KEEPS,      \* ... and leaves its pipe open and puts an error into the queue instead
          ECHO,       \* the command prints the record of a slice once it has read it, and ends at the end of its input
          DRAINER     \* the output of the command is received independently of the cache

VARIABLES E, recs,               \* the case: covered chunks, the records the command will print (ascending)
          cached, sq, sdone, serr,   \* slicer: chunks in the cache, rendered but unsent lines, gone, died
          inq, inOpenW, inOpenR,     \* pipe to the command: lines, write end open, read end open
          todo, cdone, word,         \* command: records to print, exited, actions so far
          outq, queue, qeof,         \* pipe from the command; drainer's queue; drainer has seen the end
          pos, next, out, mdone,     \* main: chunks read, next record (-1 unknown, N + 1 none), output, finished
          failed, seen, merr               \* slicer has failed; lines the command has read; main has reported an error
vars == <<failed, seen, merr, E, recs, cached, sq, sdone, serr, inq, inOpenW, inOpenR, todo, cdone, word, outq, queue, qeof, pos, next, out, mdone>>

RecSeqs == {s \in UNION {[1..k -> 0..(N - 1)] : k \in 0..N} : \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]}

Expected == [i \in 1..N |-> IF \E k \in 1..Len(recs) : recs[k] = i - 1 THEN <<"P", i - 1>> ELSE <<"S", i - 1>>]

Init ==
    /\ E \in 0..N /\ recs \in RecSeqs /\ (ECHO => \A i \in 1..Len(recs) : recs[i] < E)
    /\ failed = FALSE /\ seen = 0 /\ merr = FALSE
    /\ cached = 0 /\ sq = 0 /\ sdone = FALSE /\ serr = FALSE
    /\ inq = 0 /\ inOpenW = TRUE /\ inOpenR = TRUE
    /\ todo = recs /\ cdone = FALSE /\ word = <<>>
    /\ outq = <<>> /\ queue = <<>> /\ qeof = FALSE
    /\ pos = 0 /\ next = -1 /\ out = <<>> /\ mdone = FALSE

\* ---- slicer
SlicerWalk ==      \* consume one chunk: it goes to the cache, its line to the send buffer
    /\ ~sdone /\ sq = 0 /\ cached < E
    /\ cached' = cached + 1 /\ sq' = 1
    /\ UNCHANGED <<failed, seen, merr, E, recs, sdone, serr, inq, inOpenW, inOpenR, todo, cdone, word, outq, queue, qeof, pos, next, out, mdone>>
SlicerSend ==
    /\ ~sdone /\ sq > 0 /\ inOpenR /\ inq < CAPIN
    /\ inq' = inq + 1 /\ sq' = sq - 1
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, sdone, serr, inOpenW, inOpenR, todo, cdone, word, outq, queue, qeof, pos, next, out, mdone>>
SlicerEpipe ==     \* the command does not read any more
    /\ ~sdone /\ sq > 0 /\ ~inOpenR
    /\ IF TOLERANT THEN sq' = 0 /\ UNCHANGED <<sdone, serr, inOpenW>>
       ELSE sdone' = TRUE /\ serr' = TRUE /\ inOpenW' = FALSE /\ UNCHANGED sq
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, inq, inOpenR, todo, cdone, word, outq, queue, qeof, pos, next, out, mdone>>
SlicerEnd ==
    /\ ~sdone /\ sq = 0 /\ cached = E
    /\ sdone' = TRUE /\ inOpenW' = FALSE
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, sq, serr, inq, inOpenR, todo, cdone, word, outq, queue, qeof, pos, next, out, mdone>>

SlicerFail ==
    /\ FAILS /\ ~sdone
    /\ failed' = TRUE /\ sdone' = TRUE
    /\ IF KEEPS THEN queue' = Append(queue, -2) /\ UNCHANGED inOpenW ELSE inOpenW' = FALSE /\ UNCHANGED queue
    /\ UNCHANGED <<seen, merr, E, recs, cached, sq, serr, inq, inOpenR, todo, cdone, word, outq, qeof, pos, next, out, mdone>>

\* ---- command
CmdRead ==
    /\ ~cdone /\ inOpenR /\ inq > 0
    /\ inq' = inq - 1 /\ word' = Append(word, "r") /\ seen' = (IF ECHO THEN seen + 1 ELSE 0)
    /\ UNCHANGED <<failed, merr, E, recs, cached, sq, sdone, serr, inOpenW, inOpenR, todo, cdone, outq, queue, qeof, pos, next, out, mdone>>
CmdWrite ==
    /\ ~cdone /\ todo # <<>> /\ Len(outq) < CAPOUT /\ (ECHO => Head(todo) < seen)
    /\ outq' = Append(outq, Head(todo)) /\ todo' = Tail(todo) /\ word' = Append(word, "w")
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, sq, sdone, serr, inq, inOpenW, inOpenR, cdone, queue, qeof, pos, next, out, mdone>>
CmdClose ==
    /\ ~cdone /\ inOpenR /\ ~ECHO
    /\ inOpenR' = FALSE /\ inq' = 0 /\ word' = Append(word, "c")
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, sq, sdone, serr, inOpenW, todo, cdone, outq, queue, qeof, pos, next, out, mdone>>
CmdExit ==
    /\ ~cdone /\ (IF ECHO THEN inq = 0 /\ ~inOpenW /\ (IF todo = <<>> THEN TRUE ELSE Head(todo) >= seen) ELSE todo = <<>>)
    /\ cdone' = TRUE /\ inOpenR' = FALSE /\ inq' = 0
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, sq, sdone, serr, inOpenW, todo, word, outq, queue, qeof, pos, next, out, mdone>>

CmdDies ==         \* nd has gone
    /\ ~cdone /\ merr
    /\ cdone' = TRUE /\ inOpenR' = FALSE /\ inq' = 0
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, sq, sdone, serr, inOpenW, todo, word, outq, queue, qeof, pos, next, out, mdone>>

\* ---- drainer
Drain ==
    /\ DRAINER /\ outq # <<>>
    /\ queue' = Append(queue, Head(outq)) /\ outq' = Tail(outq)
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, sq, sdone, serr, inq, inOpenW, inOpenR, todo, cdone, word, qeof, pos, next, out, mdone>>
DrainEof ==
    /\ DRAINER /\ ~qeof /\ outq = <<>> /\ cdone
    /\ qeof' = TRUE
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, sq, sdone, serr, inq, inOpenW, inOpenR, todo, cdone, word, outq, queue, pos, next, out, mdone>>

\* ---- main
MainNext ==        \* learn the next record
    /\ ~mdone /\ next = -1
    /\ IF DRAINER
       THEN \/ queue # <<>> /\ Head(queue) # -2 /\ next' = Head(queue) /\ queue' = Tail(queue) /\ UNCHANGED outq
            \/ queue = <<>> /\ qeof /\ next' = N + 1 /\ UNCHANGED <<queue, outq>>
       ELSE \/ outq # <<>> /\ next' = Head(outq) /\ outq' = Tail(outq) /\ UNCHANGED queue
            \/ outq = <<>> /\ cdone /\ next' = N + 1 /\ UNCHANGED <<queue, outq>>
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, sq, sdone, serr, inq, inOpenW, inOpenR, todo, cdone, word, qeof, pos, out, mdone>>
Available == IF WAITS /\ sdone /\ ~failed THEN N ELSE cached
MainCopy ==        \* forward or replace one chunk
    /\ ~mdone /\ next # -1 /\ pos < Available
    /\ pos' = pos + 1
    /\ IF next = pos THEN out' = Append(out, <<"P", pos>>) /\ next' = -1
       ELSE out' = Append(out, <<"S", pos>>) /\ UNCHANGED next
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, sq, sdone, serr, inq, inOpenW, inOpenR, todo, cdone, word, outq, queue, qeof, mdone>>
MainEnd ==         \* the end of what can be read
    /\ ~mdone /\ next # -1 /\ pos = Available
    /\ WAITS => sdone
    /\ ~failed
    /\ mdone' = TRUE
    /\ UNCHANGED <<failed, seen, merr, E, recs, cached, sq, sdone, serr, inq, inOpenW, inOpenR, todo, cdone, word, outq, queue, qeof, pos, next, out>>

MainFail ==        \* the error comes up in the queue, or at the end of what has been cached
    /\ ~mdone
    /\ \/ next = -1 /\ queue # <<>> /\ Head(queue) = -2
       \/ next # -1 /\ failed /\ pos = cached
    /\ mdone' = TRUE /\ merr' = TRUE
    /\ UNCHANGED <<failed, seen, E, recs, cached, sq, sdone, serr, inq, inOpenW, inOpenR, todo, cdone, word, outq, queue, qeof, pos, next, out>>

Finished == mdone /\ sdone /\ cdone /\ UNCHANGED vars
Slicer == SlicerWalk \/ SlicerSend \/ SlicerEpipe \/ SlicerEnd \/ SlicerFail
Cmd == CmdRead \/ CmdWrite \/ CmdClose \/ CmdExit \/ CmdDies
Main == MainNext \/ MainCopy \/ MainEnd \/ MainFail
Next == Slicer \/ Cmd \/ Drain \/ DrainEof \/ Main \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Slicer) /\ WF_vars(CmdWrite) /\ WF_vars(CmdExit) /\ WF_vars(CmdDies) /\ WF_vars(ECHO /\ CmdRead) /\ WF_vars(Drain) /\ WF_vars(DrainEof) /\ WF_vars(Main)

NoLoss == mdone /\ ~merr => out = Expected
Told == mdone => merr = failed
NoError == ~serr
Prefix == \A i \in 1..Len(out) : out[i] = Expected[i]
\* a command that prints its records without ever reading, and exits, must not stop nd
Terminates == <>(mdone /\ sdone)
View == <<failed, seen, merr, E, recs, cached, sq, sdone, serr, inq, inOpenW, inOpenR, todo, cdone, outq, queue, qeof, pos, next, out, mdone>>

\* the behaviours of the command, for replay against the real program
EmitWord == (cdone /\ ~mdone) => PrintT(<<"WORD", word>>)
==============================================================================

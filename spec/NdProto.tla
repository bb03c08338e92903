------------------------------ MODULE NdProto ------------------------------
(***************************************************************************)
(* The protocols by which the stages of the pipeline hand on their streams. *)
(* A stage is a producer with a window on the rest of its stream; its       *)
(* consumer asks it to fill the window (fill) and moves it forwards (take). *)
(*                                                                          *)
(* Byte stages.  State [pos, vis, eof, want]: pos bytes were taken, vis more *)
(* are visible, the end was reported, more bytes are wanted (the consumer    *)
(* could not make use of what was visible, and took nothing).                *)
(*   fill [req, eof, len, same, new, margin]                                *)
(*      asked for req bytes, len are visible, `same' those that were visible *)
(*      before are what they were, `new' the ones behind them, `margin' the *)
(*      memory behind the window may be read                                *)
(*   take [n]                                                               *)
(*                                                                          *)
(* Slice stages.  The window is on the stream and on its slices, whose       *)
(* positions are relative to the window.  State [pos, vis, eof, k, shown]:   *)
(* k slices were taken and `shown' are visible.                              *)
(*   fill [eof, len, count, maxc, segs, same, new, margin]                  *)
(*      maxc: no slice that is yet to come starts before that position       *)
(*      (tail: the stage has to tell the true end of the stream)             *)
(*   take [n, bytes, count]                                                 *)
(*      the consumer needs nothing before n any more; the window moves by    *)
(*      `bytes' and `count' slices                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Start == [pos |-> 0, vis |-> 0, eof |-> FALSE, want |-> FALSE]

ByteFill(s, st, e) ==
    /\ e.margin /\ e.same
    \* what is visible stays visible, and what comes is the stream
    /\ e.len >= st.vis
    /\ st.pos + e.len <= Len(s)
    /\ e.new = SubSeq(s, st.pos + st.vis + 1, st.pos + e.len)
    \* the end is the end
    /\ st.eof => e.eof
    /\ e.eof => st.pos + e.len = Len(s)
    \* before the end there is as much as was asked for, and more if that did not help
    /\ ~e.eof => e.len >= e.req /\ (st.want => e.len > st.vis)
AfterByteFill(st, e) == [st EXCEPT !.vis = e.len, !.eof = e.eof, !.want = FALSE]

ByteTake(st, e) == e.n <= st.vis
AfterByteTake(st, e) == [st EXCEPT !.pos = @ + e.n, !.vis = @ - e.n, !.want = e.n = 0]

SegStart == [pos |-> 0, vis |-> 0, eof |-> FALSE, k |-> 0, shown |-> 0, segs |-> <<>>]

SegFill(s, all, tail, st, e) ==
    /\ e.margin /\ e.same
    /\ e.len >= st.vis \/ (e.eof /\ ~st.eof /\ ~tail)
    /\ st.pos + e.len <= Len(s)
    /\ e.new = SubSeq(s, st.pos + st.vis + 1, st.pos + e.len)
    /\ st.eof => e.eof /\ e.len = st.vis
    \* the visible slices are the next ones, and so are their bytes
    /\ e.count >= st.shown
    /\ st.k + e.count <= Len(all)
    /\ Len(e.segs) = e.count
    /\ \A i \in 1..e.count : /\ e.segs[i][1] + st.pos = all[st.k + i][1] /\ e.segs[i][2] = all[st.k + i][2] - all[st.k + i][1]
                             /\ e.segs[i][1] >= 0 /\ e.segs[i][1] + e.segs[i][2] <= e.len
    \* those to come start behind maxc
    /\ e.maxc <= e.len
    /\ st.k + e.count < Len(all) => all[st.k + e.count + 1][1] >= st.pos + e.maxc
    \* at the end there is nothing to come
    /\ e.eof => st.k + e.count = Len(all) /\ e.maxc = e.len
    \* and it is the end of the stream, or else (if nothing but slices follows) behind all slices not yet taken
    /\ e.eof /\ tail => st.pos + e.len = Len(s)
AfterSegFill(st, e) == [st EXCEPT !.vis = e.len, !.eof = e.eof, !.shown = e.count, !.segs = e.segs]

SegTake(st, e) ==
    /\ 0 <= e.bytes /\ e.bytes <= e.n
    /\ e.count = Cardinality({i \in 1..st.shown : st.segs[i][1] < e.bytes})
AfterSegTake(st, e) == [st EXCEPT !.pos = @ + e.bytes, !.vis = @ - e.bytes, !.k = @ + e.count, !.shown = @ - e.count, !.segs = <<>>]
===========================================================================

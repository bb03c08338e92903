-------------------------------- MODULE Proto --------------------------------
(***************************************************************************)
(* Sufficiency of the protocols of NdProto: any producer that keeps to them  *)
(* and any consumer.  The consumer gets the stream, the slices with their    *)
(* bytes, in order; wherever it stands, the producer can go on; and it gets  *)
(* to the end if it takes what it sees (or wants more).                      *)
(* The stream has N bytes; SHAPE chooses the list of slices.                *)
(***************************************************************************)
EXTENDS NdProto, TLC

CONSTANTS N, Q, SHAPE
VARIABLES st, seg, got, turn, done
vars == <<st, seg, got, turn, done>>

\* apart, overlapping, nested, at the same place, none
ALL == CASE SHAPE = 1 -> <<<<0, 1>>, <<2, N>>>>
         [] SHAPE = 2 -> <<<<0, 3>>, <<1, 4>>, <<3, 4>>>>
         [] SHAPE = 3 -> <<<<1, N>>, <<1, N>>, <<2, 3>>>>
         [] OTHER -> <<>>
S == [k \in 1..N |-> k]
Rel(l, p) == [i \in 1..Len(l) |-> <<l[i][1] - p, l[i][2] - l[i][1]>>]

Fills ==
    IF seg THEN {[eof |-> e, len |-> len, count |-> c, maxc |-> m, margin |-> TRUE, same |-> TRUE, new |-> SubSeq(S, st.pos + st.vis + 1, st.pos + len),
                  segs |-> Rel(SubSeq(ALL, st.k + 1, st.k + c), st.pos)] : e \in BOOLEAN, len \in 0..(N - st.pos), c \in 0..(Len(ALL) - st.k), m \in 0..N}
    ELSE {[req |-> q, eof |-> e, len |-> len, margin |-> TRUE, same |-> TRUE, new |-> SubSeq(S, st.pos + st.vis + 1, st.pos + len)] : q \in 0..Q, e \in BOOLEAN, len \in 0..(N - st.pos)}
Allowed(e) == IF seg THEN st.k + e.count <= Len(ALL) /\ SegFill(S, ALL, TRUE, st, e) ELSE ByteFill(S, st, e)

Init == seg \in BOOLEAN /\ st = (IF seg THEN SegStart @@ [maxc |-> 0] ELSE Start) /\ got = <<>> /\ turn = "fill" /\ done = FALSE
Fill == /\ turn = "fill" /\ ~done
        /\ \E e \in Fills : Allowed(e) /\ st' = IF seg THEN [AfterSegFill(st, e) EXCEPT !.maxc = e.maxc] ELSE AfterByteFill(st, e)
        /\ turn' = "take" /\ UNCHANGED <<seg, got, done>>
\* a consumer of slices lets go of what lies before maxc, and takes the slices that start there
TakeSeg(n) == /\ seg /\ n <= st.maxc
              /\ LET c == Cardinality({i \in 1..st.shown : st.segs[i][1] < n})
                     e == [n |-> n, bytes |-> n, count |-> c]
                 IN /\ SegTake(st, e) /\ st' = AfterSegTake(st, e)
                    /\ got' = got \o [i \in 1..c |-> <<st.segs[i][1] + st.pos, st.segs[i][1] + st.pos + st.segs[i][2]>>]
TakeByte(n) == /\ ~seg /\ n <= st.vis /\ st' = AfterByteTake(st, [n |-> n]) /\ got' = got \o SubSeq(S, st.pos + 1, st.pos + n)
Take(n) == turn = "take" /\ turn' = "fill" /\ (TakeSeg(n) \/ TakeByte(n)) /\ done' = (st.eof /\ st.vis = 0) /\ UNCHANGED seg
Next == Fill \/ \E n \in 0..N : Take(n)
Spec == Init /\ [][Next]_vars

Right == IF seg THEN got = SubSeq(ALL, 1, Len(got)) ELSE got = SubSeq(S, 1, Len(got))
AtEnd == done => Len(got) = (IF seg THEN Len(ALL) ELSE N)
\* whatever has happened, the producer can go on
Possible == turn = "fill" /\ ~done => ENABLED Fill
==============================================================================

------------------------------- MODULE Round -------------------------------
(***************************************************************************)
(* Small-scope theorem: "hexdump is also a binary patch".  All streams over *)
(* a small alphabet (containing bytes that look like delimiters) up to      *)
(* MAXLEN bytes, all widths and column counts, both textual formats.  The   *)
(* exploration proceeds by growing the stream by one byte.                  *)
(***************************************************************************)
EXTENDS NdPipe
CONSTANT MAXLEN
Alpha == {0, 10, 32, 65, 124, 255}
WHOLE == [sa |-> "s", so |-> 0, ea |-> "e", eo |-> 0]

VARIABLES s, w, cols, fmt
Init == s = <<>> /\ w \in 1..3 /\ cols \in {0, 2, 4} /\ fmt \in {"x", "d"}
Next == Len(s) < MAXLEN /\ \E b \in Alpha : s' = Append(s, b) /\ UNCHANGED <<w, cols, fmt>>
Spec == Init /\ [][Next]_<<s, w, cols, fmt>>

Segs == WidthSegs(Len(s), w, WHOLE)
Recs == ParseText(Format(fmt, cols, s, Segs), IF fmt = "d" THEN 10 ELSE 16)

\* reading a dump back, as an input or as a patch, gives the stream
RoundTrip ==
    /\ Recs.ok /\ Disjoint(Recs.recs)
    /\ Place(Recs.recs, 238) = s
    /\ Gapless(Recs.recs) = s
    /\ ApplyPatch(s, Recs.recs) = s
    \* any subset of the lines is a patch that changes nothing
    /\ \A K \in SUBSET (1..Len(Recs.recs)) : ApplyPatch(s, SelectSeq(Recs.recs, LAMBDA x : \E k \in K : x = Recs.recs[k])) = s

\* editing the array of one line replaces exactly the bytes of its slice
EditOne ==
    \A k \in 1..Len(Segs) : \A arr \in {<<>>, <<1>>, <<1, 2, 3>>} :
        ApplyPatch(s, <<[Recs.recs[k] EXCEPT !.arr = arr]>>) = Sub(s, 0, Segs[k][1]) \o arr \o Sub(s, Segs[k][2], Len(s))
===========================================================================

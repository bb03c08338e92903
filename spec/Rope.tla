------------------------------ MODULE Rope ------------------------------
(***************************************************************************)
(* The operations on ropes refine those on bytes: for every combination of  *)
(* small inputs and arguments, what the resulting rope stands for is what   *)
(* NdBytes makes of what the arguments stand for.                           *)
(***************************************************************************)
EXTENDS NdRope

CONSTANTS MAXLEN, OFFS

VARIABLES lens, n, r1, r2, recs

Ranges == [sa : {"s", "e"}, so : {o - 1 : o \in OFFS}, ea : {"s", "e"}, eo : {o - 1 : o \in OFFS}]
Recs == {<<>>} \cup {<<[off |-> o, len |-> l, arr |-> Rep(200, a)]>> : o \in 0..(MAXLEN + 1), l \in 0..2, a \in 0..2}
        \cup {<<[off |-> o, len |-> l, arr |-> <<200>>], [off |-> o + l + d, len |-> 1, arr |-> <<201, 202>>]>> : o \in 0..MAXLEN, l \in 0..2, d \in 0..2}
FILLER == 99

\* two inputs, whose bytes are all different
Ins == [i \in 1..Len(lens) |-> [j \in 1..lens[i] |-> 10 * i + j]]
Ropes == [i \in 1..Len(lens) |-> <<InPiece(i, 0, lens[i])>>]

\* (the arguments of one operation vary in a behaviour)
Init == /\ lens \in [1..2 -> 0..MAXLEN] /\ n \in 1..3
        /\ \/ r1 \in Ranges /\ r2 \in Ranges /\ recs = <<>> /\ n = 1 /\ lens[2] <= 1
           \/ r1 = [sa |-> "s", so |-> 0, ea |-> "e", eo |-> 0] /\ r2 = r1 /\ recs \in Recs
Next == FALSE /\ UNCHANGED <<lens, n, r1, r2, recs>>
Spec == Init /\ [][Next]_<<lens, n, r1, r2, recs>>

B(r) == RBytes(r, Ins, FILLER)
RefinesCat == B(RCat(Ropes, n)) = CatInputs(Ins, n, FILLER)
RefinesZip == B(RZip(Ropes, n)) = ZipInputs(Ins, n, FILLER)
RefinesCut == B(RCut(RCat(Ropes, n), <<r1, r2>>)) = Cut(CatInputs(Ins, n, FILLER), <<r1, r2>>)
RefinesPad == B(RPad(RZip(Ropes, n), n, 2)) = Pad(ZipInputs(Ins, n, FILLER), n, 2, FILLER)
RefinesPatch == B(RApply(RCat(Ropes, n), recs)) = ApplyPatch(CatInputs(Ins, n, FILLER), recs)
RefinesPlace == B(RPlaceR(recs, 1, 0)) = Place(recs, FILLER)
RefinesSub == \A a, b \in 0..3 : a <= b => B(RSub(RCat(Ropes, n), a, b)) = Sub(CatInputs(Ins, n, FILLER), a, Min2(b, RLen(RCat(Ropes, n))))
===========================================================================

------------------------------ MODULE StreamBuf ------------------------------
(***************************************************************************)
(* The buffer that every byte stage is built on, as an algorithm: a block    *)
(* that is filled up to a target length by reads of any sizes, whose head    *)
(* is given up only when the consumer is far behind it, and whose target     *)
(* grows when the consumer takes nothing.  It has to keep to the protocol    *)
(* of byte stages (NdProto) with every consumer.                             *)
(* The bytes of the source are numbered 1..TOTAL, the filler is 0.           *)
(* DESIGN: "real", or one that is known to be wrong                          *)
(*   "head"    a request is counted from the head of the block, not from     *)
(*             where the consumer is (a defect that nd had)                  *)
(*   "idle"    nothing is read when the target is reached, and the target    *)
(*             does not grow when the consumer takes nothing                 *)
(*   "unwind"  the position in the stream is forgotten with the head         *)
(*   "short"   a read that returns less than asked for is taken for the end  *)
(*   "bare"    the filler is left out                                        *)
(***************************************************************************)
EXTENDS NdProto

CONSTANTS BLOCK, TOTAL, ALIGN, CHUNK, REQ, DESIGN
VARIABLES read,      \* bytes that the source has delivered
          buf,       \* the block
          off,       \* position of its head in the stream
          pos,       \* where the consumer is in the block
          target, eof,
          st, wrong  \* the protocol, and whether it was violated
vars == <<read, buf, off, pos, target, eof, st, wrong>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Up(n) == ((n + ALIGN - 1) \div ALIGN) * ALIGN
Whole == [k \in 1..Up(TOTAL) |-> IF k <= TOTAL THEN k ELSE 0]
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)

Init == read = 0 /\ buf = <<>> /\ off = 0 /\ pos = 0 /\ target = BLOCK /\ eof = FALSE /\ st = Start /\ wrong = FALSE

\* what a fill shows
Show(req, b, end) ==
    LET len == Len(b) - pos
        e == [req |-> req, eof |-> end, len |-> len, same |-> TRUE, margin |-> TRUE, new |-> SubSeq(b, pos + st.vis + 1, Len(b))]
    IN wrong' = (wrong \/ ~ByteFill(Whole, st, e)) /\ st' = AfterByteFill(st, e)

Aligned(b) == IF DESIGN = "bare" THEN b ELSE [k \in 1..(Up(off + Len(b)) - off) |-> IF k <= Len(b) THEN b[k] ELSE 0]

FillEof(req) == eof /\ Show(req, buf, TRUE) /\ UNCHANGED <<read, buf, off, pos, target, eof>>
Fill(req) ==
    /\ ~eof
    /\ LET goal == Max(target, IF DESIGN = "head" THEN req ELSE req + pos)
           rest == TOTAL - read
           quiet == DESIGN = "idle" /\ Len(buf) >= goal
           \* at least one read; the last one starts below the goal
           enough == IF quiet THEN {0} ELSE {n \in 1..rest : Len(buf) + n >= goal /\ n <= Max(1, goal - Len(buf)) + CHUNK - 1}
       IN \/ \E n \in enough :
                LET b == buf \o SubSeq(Whole, read + 1, read + n) IN
                /\ read' = read + n /\ buf' = b /\ eof' = FALSE /\ Show(req, b, FALSE)
          \/ /\ ~quiet
             /\ (DESIGN = "short" \/ Len(buf) + rest < goal \/ rest = 0)
             /\ LET b == Aligned(buf \o (IF DESIGN = "short" THEN SubSeq(Whole, read + 1, read + Min(rest, CHUNK)) ELSE SubSeq(Whole, read + 1, TOTAL))) IN
                /\ read' = TOTAL /\ buf' = b /\ eof' = TRUE /\ Show(req, b, TRUE)
    /\ UNCHANGED <<off, pos, target>>

Take(n) ==
    /\ n <= st.vis
    /\ st' = AfterByteTake(st, [n |-> n])
    /\ LET p == pos + n
           unwind == ~eof /\ p >= Min((7 * Len(buf)) \div 8, 8 * BLOCK)
           b == IF unwind THEN SubSeq(buf, p + 1, Len(buf)) ELSE buf
           len == Len(b)
       IN /\ buf' = b /\ off' = off + (IF unwind /\ DESIGN # "unwind" THEN p ELSE 0) /\ pos' = (IF unwind THEN 0 ELSE p)
          /\ target' = IF eof \/ (DESIGN = "idle" /\ n = 0) THEN target ELSE IF n = 0 THEN Pow2(len + (len + 1) \div 2, 1) ELSE Max(len + 1, BLOCK)
    /\ UNCHANGED <<read, eof, wrong>>

\* a consumer fills before it takes
Next == \/ \E req \in REQ : Fill(req) \/ FillEof(req)
        \/ \E n \in 0..Len(buf) : Take(n)
Spec == Init /\ [][Next]_vars

Protocol == ~wrong
Place == st.pos = off + pos
\* a consumer that takes what it sees does not make the block grow
Memory == Len(buf) <= 2 * Up(Max(TOTAL, 16 * BLOCK))
Whither == st.eof /\ st.vis = 0 => st.pos = Len(Whole)
==============================================================================

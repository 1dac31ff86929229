------------------------------ MODULE GenStream ------------------------------
(***************************************************************************)
(* An unfinished hash as an algorithm: a buffer of less than one block and *)
(* the count of blocks that were compressed.  The message is abstracted to *)
(* the positions of its bytes, so the invariant can say that the bytes     *)
(* that were compressed are exactly the first ones of the message, in      *)
(* order, and that the buffer holds the rest: feeding in pieces equals     *)
(* hashing the whole (property C13).  The state graph, one transition per  *)
(* (state of the buffer, length of the piece), is printed and replayed:    *)
(* one test per transition.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS Block, LenBytes, MaxBlocks

VARIABLES buf,      \* positions that wait in the buffer
          blocks,   \* blocks compressed
          good,     \* whether every compressed block had the right bytes
          total     \* length of the message so far
vars == <<buf, blocks, good, total>>

Positions(from, n) == [i \in 1..n |-> from + i]
Lengths == 0..(Block + 1) \cup (2*Block - 1)..(2*Block + 1)

Init == buf = <<>> /\ blocks = 0 /\ good = TRUE /\ total = 0

\* Fills the buffer, then takes whole blocks, then keeps the rest.
RECURSIVE Feed(_, _)
Feed(st, piece) ==
    LET room == Block - Len(st.buf)
        take == IF Len(piece) < room THEN Len(piece) ELSE room
        b == st.buf \o SubSeq(piece, 1, take)
        rest == SubSeq(piece, take + 1, Len(piece))
    IN IF Len(b) < Block THEN [st EXCEPT !.buf = b]
       ELSE Feed([buf |-> <<>>, blocks |-> st.blocks + 1, good |-> st.good /\ b = Positions(st.blocks * Block, Block)], rest)

Append_(n) ==
    LET r == Feed([buf |-> buf, blocks |-> blocks, good |-> good], Positions(total, n))
    IN /\ buf' = r.buf /\ blocks' = r.blocks /\ good' = r.good
       /\ total' = total + n
Next == blocks < MaxBlocks /\ \E n \in Lengths : Append_(n)
Spec == Init /\ [][Next]_vars

\* Padding: one more block, or two if the length field does not fit.
PadBlocks == IF Len(buf) + 1 + LenBytes <= Block THEN 1 ELSE 2
Streaming ==
    /\ good
    /\ Len(buf) < Block
    /\ blocks = total \div Block
    /\ buf = Positions(blocks * Block, total - blocks * Block)
    /\ (blocks + PadBlocks) * Block >= total + 1 + LenBytes
    /\ (blocks + PadBlocks - 1) * Block < total + 1 + LenBytes
\* An action constraint: bytes in the buffer, blocks before, length of the piece.
Emit == PrintT(ToJson(<<Len(buf), blocks, total' - total>>))
=============================================================================

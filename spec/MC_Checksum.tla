----------------------------- MODULE MC_Checksum -----------------------------
(***************************************************************************)
(* What the Bech32 checksum is for: every damage of up to four characters  *)
(* of the data part is detected.  The checksum is linear, so this is that  *)
(* all damages of up to two characters leave different remainders; the     *)
(* model explores them all and counts the remainders.  Supports C21.       *)
(***************************************************************************)
EXTENDS Bech32Spec, TLC

CONSTANT Length          \* of the data part with the checksum

Unit(v) == <<0, v>>
\* The remainder that changing the character i places before the end by v adds.
Remainder == [i \in 0..(Length - 1) |-> [v \in 0..31 |-> FoldLeft(PolyStep, Unit(v), [k \in 1..i |-> 0])]]

VARIABLES errors, last, rem
vars == <<errors, last, rem>>
Init == errors = 0 /\ last = -1 /\ rem = <<0, 0>>
Next == /\ errors < 2
        /\ \E i \in (last + 1)..(Length - 1), v \in 1..31 : last' = i /\ rem' = WXor(rem, Remainder[i][v])
        /\ errors' = errors + 1
Spec == Init /\ [][Next]_vars
View == rem
Linear == \A i \in {0, 3, Length - 1}, v \in {1, 6, 31}, w \in {1, 9} :
             WXor(Remainder[i][v], Remainder[i][w]) = (IF v = w THEN <<0, 0>> ELSE Remainder[i][WXor(<<0, v>>, <<0, w>>)[2]])
Damages == 1 + 31 * Length + 31 * 31 * ((Length * (Length - 1)) \div 2)
AllDifferent == TLCGet("stats").distinct = Damages
=============================================================================

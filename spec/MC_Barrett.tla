------------------------------ MODULE MC_Barrett ------------------------------
(***************************************************************************)
(* Barrett reduction for every modulus of the form 2^Bits - c, c small and *)
(* odd, and every product of two residues: the quotient estimate is at     *)
(* most one too small, the rest fits in Bits + 1 bits, one subtraction     *)
(* finishes.  Supports C04.                                                *)
(***************************************************************************)
EXTENDS Algorithms

CONSTANTS Bits, MaxC

VARIABLES m, x
Init == m \in {2^Bits - c : c \in {i \in 1..MaxC : i % 2 = 1}} /\ x = -1
Next == x = -1 /\ x' \in 0..(m - 1) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, x>>

Reduces == x >= 0 => \A y \in 0..(m - 1) :
    LET r == BarrettRest(x * y, m, Bits)
    IN /\ 0 <= r /\ r < 2 * m
       /\ BarrettReduce(x * y, m, Bits) = (x * y) % m
\* The shape of the multiplier that the library uses: 2^256 + 2^32 + 0x3D1 for c = 2^32 + 0x3D1.
Multiplier == \A c \in 1..MaxC : c * c + c < 2^Bits => 2^(2*Bits) \div (2^Bits - c) = 2^Bits + c
=============================================================================

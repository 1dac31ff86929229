------------------------------ MODULE GenLimbs ------------------------------
(***************************************************************************)
(* Every way in which a carry or a borrow can run through the eight 32-bit *)
(* words of two numbers.  A word pair kills, propagates or generates a     *)
(* carry (addition), or is less, equal or greater (subtraction and         *)
(* comparison); the numbers are built from representatives of these        *)
(* classes, one word per step, least significant first.  Agree says that   *)
(* the word-wise rule gives the carry, the borrow and the order of the     *)
(* whole numbers.  All finished pairs are printed and replayed into the    *)
(* library: one test for every path through the carry automaton.           *)
(***************************************************************************)
EXTENDS BigNat, Json

CONSTANT Words      \* 8

VARIABLES mode, pat, x, y, carry, borrow
vars == <<mode, pat, x, y, carry, borrow>>

Z == <<0, 0, 0, 0>>
F == <<255, 255, 255, 255>>
H == <<0, 0, 0, 128>>
S == <<255, 255, 255, 127>>
E1 == <<254, 255, 255, 255>>
O == <<1, 0, 0, 0>>
A5 == <<170, 170, 170, 170>>
B5 == <<85, 85, 85, 85>>
R == <<13, 213, 177, 66>>

Rep == [K |-> <<<<Z, Z>>, <<S, S>>, <<O, <<253, 255, 255, 255>>>>, <<R, Z>>>>,
        P |-> <<<<Z, F>>, <<F, Z>>, <<A5, B5>>, <<S, H>>>>,
        G |-> <<<<F, F>>, <<H, H>>, <<O, F>>, <<F, O>>>>,
        L |-> <<<<Z, O>>, <<Z, F>>, <<S, H>>, <<E1, F>>>>,
        E |-> <<<<Z, Z>>, <<F, F>>, <<H, H>>, <<R, R>>>>,
        M |-> <<<<O, Z>>, <<F, Z>>, <<H, S>>, <<F, E1>>>>]
Classes == [add |-> {"K", "P", "G"}, sub |-> {"L", "E", "M"}]

Weight(c) == CASE c \in {"K", "L"} -> 0 [] c \in {"P", "E"} -> 1 [] OTHER -> 2
\* Which representative is taken varies with the position and with the words below.
Variant == (FoldLeft(LAMBDA s, c : 3 * s + Weight(c), Len(pat), pat) % 4) + 1

Sum4(a, b, c) == PAdd(PAdd(PTrim(a), PTrim(b)), IF c = 1 THEN BOne ELSE BZero)
NextCarry(a, b, c) == IF Len(Sum4(a, b, c)) > 4 THEN 1 ELSE 0
NextBorrow(a, b, c) == IF PCmp(PTrim(a), PAdd(PTrim(b), IF c = 1 THEN BOne ELSE BZero)) < 0 THEN 1 ELSE 0

Init == mode \in {"add", "sub"} /\ pat = <<>> /\ x = <<>> /\ y = <<>> /\ carry = 0 /\ borrow = 0
Grow(c) ==
    LET r == Rep[c][Variant]
    IN /\ pat' = Append(pat, c)
       /\ x' = x \o r[1]
       /\ y' = y \o r[2]
       /\ carry' = NextCarry(r[1], r[2], carry)
       /\ borrow' = NextBorrow(r[1], r[2], borrow)
       /\ UNCHANGED mode
Next == \/ Len(pat) < Words /\ \E c \in Classes[mode] : Grow(c)
        \/ Len(pat) = Words /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Top == BPow2(32 * Len(pat))
Agree ==
    /\ (carry = 1) = BLe(Top, BAdd(BTrim(x), BTrim(y)))
    /\ (borrow = 1) = BLt(BTrim(x), BTrim(y))
    \* the automaton: the last word that does not propagate decides
    /\ mode = "add" => (carry = 1) = (\E i \in 1..Len(pat) : pat[i] = "G" /\ \A j \in (i+1)..Len(pat) : pat[j] = "P")
    /\ mode = "sub" => (borrow = 1) = (\E i \in 1..Len(pat) : pat[i] = "L" /\ \A j \in (i+1)..Len(pat) : pat[j] = "E")
Emit == Len(pat) = Words => PrintT(ToJson(<<mode, x, y>>))
=============================================================================

------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size, for TLC (whose integers are 32-bit).       *)
(* A number is its little-endian sequence of base-256 digits without       *)
(* trailing zero digits, so equality of numbers is equality of values and  *)
(* zero is <<>>.                                                           *)
(*                                                                         *)
(* The operators P... are the definitions.  The operators B... are equal   *)
(* to them by definition; TLC evaluates the B... ones with the Java class  *)
(* override/vx/Ov.java (java.math.BigInteger) because the interpreted      *)
(* definitions are slow.  SelfTest.tla checks that both agree.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

BZero == <<>>
BOne  == <<1>>

\* Strips leading (most significant) zero digits.
RECURSIVE PTrim(_)
PTrim(s) == IF s = <<>> THEN s
            ELSE IF s[Len(s)] = 0 THEN PTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

Dig(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

MaxI(a, b) == IF a >= b THEN a ELSE b

RECURSIVE PAddR(_, _, _, _)
PAddR(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == Dig(a, i) + Dig(b, i) + c
         IN <<t % 256>> \o PAddR(a, b, i + 1, t \div 256)
PAdd(a, b) == PAddR(a, b, 1, 0)

\* -1, 0 or 1
RECURSIVE PCmpR(_, _, _)
PCmpR(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] < b[i] THEN -1
                  ELSE IF a[i] > b[i] THEN 1 ELSE PCmpR(a, b, i - 1)
PCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE PCmpR(a, b, Len(a))

\* Requires a >= b
RECURSIVE PSubR(_, _, _, _)
PSubR(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET t == Dig(a, i) - Dig(b, i) - c
         IN <<t % 256>> \o PSubR(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
PSub(a, b) == PTrim(PSubR(a, b, 1, 0))

RECURSIVE PMul1(_, _, _, _)
PMul1(a, d, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == a[i] * d + c
         IN <<t % 256>> \o PMul1(a, d, i + 1, t \div 256)
RECURSIVE PMulR(_, _, _)
PMulR(a, b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE PAdd(PMul1(a, b[i], 1, 0), LET r == PMulR(a, b, i + 1) IN IF r = <<>> THEN r ELSE <<0>> \o r)
PMul(a, b) == PTrim(PMulR(a, b, 1))

\* Long division, one base-256 digit at a time; <<quotient, remainder>>. Requires m # 0.
RECURSIVE PDigitQ(_, _, _)
PDigitQ(r, m, q) == IF PCmp(r, m) >= 0 THEN PDigitQ(PSub(r, m), m, q + 1) ELSE <<q, r>>
RECURSIVE PDivR(_, _, _)
PDivR(a, m, i) ==      \* divides the digits i..Len(a)
    IF i > Len(a) THEN <<<<>>, <<>>>>
    ELSE LET up == PDivR(a, m, i + 1)
             dq == PDigitQ(PTrim(<<a[i]>> \o up[2]), m, 0)
         IN <<(<<dq[1]>> \o up[1]), dq[2]>>
PDivMod(a, m) == LET r == PDivR(a, m, 1) IN <<PTrim(r[1]), r[2]>>
PDiv(a, m) == PDivMod(a, m)[1]
PMod(a, m) == PDivMod(a, m)[2]

PAddMod(a, b, m) == PMod(PAdd(a, b), m)
PSubMod(a, b, m) == PMod(PSub(PAdd(PMod(a, m), m), PMod(b, m)), m)
PMulMod(a, b, m) == PMod(PMul(a, b), m)

\* Extended Euclid on naturals modulo m: the x with a * x = gcd (mod m).
RECURSIVE PInvR(_, _, _, _, _)
PInvR(r0, r1, t0, t1, m) ==
    IF r1 = <<>> THEN (IF r0 = BOne THEN t0 ELSE <<>>)
    ELSE LET dm == PDivMod(r0, r1)
         IN PInvR(r1, dm[2], t1, PSubMod(t0, PMulMod(dm[1], t1, m), m), m)
\* The inverse of a modulo m, or zero if there is none.
PInv(a, m) == IF m = BOne THEN <<>> ELSE PInvR(m, PMod(a, m), <<>>, BOne, m)

RECURSIVE PFromInt(_)
PFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o PFromInt(n \div 256)

Pow2Int(k) == 2 ^ k
PBit(a, i) == (Dig(a, (i \div 8) + 1) \div Pow2Int(i % 8)) % 2

\* Hexadecimal text to the sequence of bytes it denotes (even length).
HexVal == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"} |->
   CASE c="0"->0 [] c="1"->1 [] c="2"->2 [] c="3"->3 [] c="4"->4 [] c="5"->5 [] c="6"->6 [] c="7"->7
     [] c="8"->8 [] c="9"->9 [] c="a"->10 [] c="b"->11 [] c="c"->12 [] c="d"->13 [] c="e"->14 [] c="f"->15]
PHexBytes(s) == [i \in 1..(Len(s) \div 2) |->
                   HexVal[SubSeq(s, 2*i - 1, 2*i - 1)] * 16 + HexVal[SubSeq(s, 2*i, 2*i)]]
PFromBE(s) == PTrim(Reverse(s))
\* The n-byte big-endian encoding; requires a < 256^n.
PToBE(a, n) == [i \in 1..n |-> Dig(a, n + 1 - i)]

----------------------------------------------------------------------------
BTrim(s)        == PTrim(s)
BAdd(a, b)      == PAdd(a, b)
BSub(a, b)      == PSub(a, b)
BCmp(a, b)      == PCmp(a, b)
BMul(a, b)      == PMul(a, b)
BDiv(a, m)      == PDiv(a, m)
BMod(a, m)      == PMod(a, m)
BAddMod(a, b, m) == PAddMod(a, b, m)
BSubMod(a, b, m) == PSubMod(a, b, m)
BMulMod(a, b, m) == PMulMod(a, b, m)
BInv(a, m)      == PInv(a, m)
BFromInt(n)     == PFromInt(n)
BBit(a, i)      == PBit(a, i)
HexBytes(s)     == PHexBytes(s)
FromBE(s)       == PFromBE(s)
ToBE(a, n)      == PToBE(a, n)

BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BIsZero(a) == a = <<>>
HexNat(s) == FromBE(HexBytes(s))
\* 2^k
BPow2(k) == [i \in 1..((k \div 8) + 1) |-> IF i <= k \div 8 THEN 0 ELSE 2 ^ (k % 8)]
Two256 == BPow2(256)
Two512 == BPow2(512)
=============================================================================

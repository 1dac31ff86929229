-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Machine words as big-endian sequences of 16-bit limbs: 32-bit words     *)
(* have two limbs, 64-bit words four.  P... are the definitions, W... are  *)
(* evaluated by the Java override (checked against P... in SelfTest.tla).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

RECURSIVE PWAddR(_, _, _, _, _)
PWAddR(a, b, i, c, acc) ==
    IF i = 0 THEN acc
    ELSE LET t == a[i] + b[i] + c
         IN PWAddR(a, b, i - 1, t \div 65536, <<t % 65536>> \o acc)
PWAdd(a, b) == PWAddR(a, b, Len(a), 0, <<>>)
PWXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
PWAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
PWOr(a, b)  == [i \in 1..Len(a) |-> a[i] | b[i]]
PWNot(a)    == [i \in 1..Len(a) |-> 65535 - a[i]]
\* Rotation right by n, 0 <= n < 16 * Len(a)
PWRotr(a, n) ==
    LET k == Len(a)
        q == n \div 16
        s == n % 16
        L(i) == a[((i - 1 - q) % k) + 1]
    IN [i \in 1..k |-> (L(i) \div 2^s) + (L(i - 1) % 2^s) * 2^(16 - s)]
PWShr(a, n) ==
    LET k == Len(a)
        q == n \div 16
        s == n % 16
        L(i) == IF i - q >= 1 THEN a[i - q] ELSE 0
    IN [i \in 1..k |-> (L(i) \div 2^s) + (L(i - 1) % 2^s) * 2^(16 - s)]

WAdd(a, b)  == PWAdd(a, b)
WXor(a, b)  == PWXor(a, b)
WAnd(a, b)  == PWAnd(a, b)
WOr(a, b)   == PWOr(a, b)
WNot(a)     == PWNot(a)
WRotr(a, n) == PWRotr(a, n)
WShr(a, n)  == PWShr(a, n)
WRotl(a, n) == WRotr(a, 16 * Len(a) - n)

WAdd3(a, b, c)       == WAdd(a, WAdd(b, c))
WAdd4(a, b, c, d)    == WAdd(WAdd(a, b), WAdd(c, d))
WAdd5(a, b, c, d, e) == WAdd(WAdd4(a, b, c, d), e)
WXor3(a, b, c)       == WXor(a, WXor(b, c))

\* Big-endian bytes to a word with k limbs, starting at (1-based) position pos.
WFromBE(s, pos, k) == [i \in 1..k |-> s[pos + 2*(i-1)] * 256 + s[pos + 2*(i-1) + 1]]
WToBE(w) == [j \in 1..(2 * Len(w)) |-> IF j % 2 = 1 THEN w[(j + 1) \div 2] \div 256 ELSE w[j \div 2] % 256]
WFromLE(s, pos, k) == [i \in 1..k |-> s[pos + 2*(k-i)] + s[pos + 2*(k-i) + 1] * 256]
WToLE(w) == Reverse(WToBE(w))
WZero(k) == [i \in 1..k |-> 0]
Range1(n) == [i \in 1..n |-> i]
=============================================================================

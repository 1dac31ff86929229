------------------------------ MODULE MC_Base58 ------------------------------
(***************************************************************************)
(* Base58 for every byte string up to MaxBytes bytes and every text of up  *)
(* to MaxChars characters over the alphabet and three strangers: encoding  *)
(* and decoding are inverse to each other, and the library's digit-by-     *)
(* digit algorithms (long division by 58, multiply-and-add with overflow   *)
(* refusal and a count of leading ones) compute them for every output      *)
(* length.  The checksummed layer is explored with a one-byte stand-in for *)
(* the double hash.  Supports C18, C19, C20.                               *)
(***************************************************************************)
EXTENDS Base58

CONSTANTS MaxBytes, MaxChars, MaxLen, ByteSet, CharSet
AllBytes == 0..255
AllChars == B58Chars \cup {48, 73, 200}

\* A stand-in for the double hash (the .cfg substitutes it for Sha256d).
ToyHash(data) == LET s == FoldLeft(LAMBDA acc, b : (acc * 3 + b + 1) % 256, 7, data) IN <<s % 2, 0, 0, (s \div 2) % 2>>

\* long division by 58, most significant byte first
AlgMod58(x) == FoldLeft(LAMBDA sum, b : (sum * 24 + b) % 58, 0, x)
AlgDiv58(x) == FoldLeft(LAMBDA acc, b : LET d == (acc.rem * 256) + b IN [q |-> Append(acc.q, d \div 58), rem |-> d % 58],
                        [q |-> <<>>, rem |-> 0], x).q
RECURSIVE AlgDigits(_)
AlgDigits(x) == IF \A i \in 1..Len(x) : x[i] = 0 THEN <<>> ELSE Append(AlgDigits(AlgDiv58(x)), B58Alphabet[AlgMod58(x) + 1])
AlgEncode(x) == Ones(LeadingCount(x, 0)) \o AlgDigits(x)

\* x*58 + digit in place; the carry out says that it does not fit
AlgMulAdd(x, digit) ==
    LET n == Len(x)
    IN FoldLeft(LAMBDA acc, i : LET v == acc.x[n + 1 - i] * 58 + acc.c
                                IN [x |-> [acc.x EXCEPT ![n + 1 - i] = v % 256], c |-> v \div 256],
                [x |-> x, c |-> digit], Range1(n))
NotDecoded == [ok |-> FALSE, data |-> <<>>]
AlgDecodeTo(text, n) ==
    LET res == FoldLeft(LAMBDA acc, ch : IF ~acc.ok \/ ch \notin B58Chars THEN NotDecoded
                                         ELSE LET m == AlgMulAdd(acc.data, B58Value[ch])
                                              IN IF m.c # 0 THEN NotDecoded ELSE [ok |-> TRUE, data |-> m.x],
                        [ok |-> TRUE, data |-> Zeros(n)], text)
    IN IF res.ok /\ LeadingCount(text, 49) = LeadingCount(res.data, 0) THEN res ELSE NotDecoded

VARIABLES bytes, text
vars == <<bytes, text>>
Init == bytes = <<>> /\ text = <<>>
Next == \/ /\ text = <<>> /\ Len(bytes) < MaxBytes /\ \E b \in ByteSet : bytes' = Append(bytes, b)
           /\ UNCHANGED text
        \/ /\ bytes = <<>> /\ Len(text) < MaxChars /\ \E c \in CharSet : text' = Append(text, c)
           /\ UNCHANGED bytes
Spec == Init /\ [][Next]_vars

Encodes ==
    LET t == B58Encode(bytes)
    IN /\ IsB58(t) /\ B58Decode(t) = bytes
       /\ AlgEncode(bytes) = t
       /\ \A n \in 0..MaxLen : AlgDecodeTo(t, n) = IF n = Len(bytes) THEN [ok |-> TRUE, data |-> bytes] ELSE NotDecoded
Decodes ==
    IF IsB58(text)
    THEN /\ B58Encode(B58Decode(text)) = text
         /\ \A n \in 0..MaxLen : AlgDecodeTo(text, n) = IF n = Len(B58Decode(text)) THEN [ok |-> TRUE, data |-> B58Decode(text)] ELSE NotDecoded
    ELSE \A n \in 0..MaxLen : AlgDecodeTo(text, n) = NotDecoded
Checked ==
    /\ B58CheckDecode(B58CheckEncode(bytes)) = [ok |-> TRUE, data |-> bytes]
    /\ LET d == B58CheckDecode(text) IN d.ok => B58CheckEncode(d.data) = text
    \* A text is refused unless it is the encoding of what it would decode to.
    /\ IsB58(text) /\ Len(B58Decode(text)) >= 4 => (B58CheckDecode(text).ok = (text = B58CheckEncode(SubSeq(B58Decode(text), 1, Len(B58Decode(text)) - 4))))
=============================================================================

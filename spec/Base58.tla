------------------------------- MODULE Base58 -------------------------------
(***************************************************************************)
(* Base58Check.  Text is a sequence of character codes.                    *)
(***************************************************************************)
EXTENDS Hashes

\* "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
B58Alphabet == [i \in 1..9 |-> 48 + i] \o <<65,66,67,68,69,70,71,72, 74,75,76,77,78, 80,81,82,83,84,85,86,87,88,89,90>>
               \o <<97,98,99,100,101,102,103,104,105,106,107, 109,110,111,112,113,114,115,116,117,118,119,120,121,122>>
B58Chars == {B58Alphabet[i] : i \in 1..58}
B58Value == [c \in B58Chars |-> (CHOOSE i \in 1..58 : B58Alphabet[i] = c) - 1]
IsB58(text) == \A i \in 1..Len(text) : text[i] \in B58Chars

\* How many leading elements equal v.
LeadingCount(s, v) == FoldLeft(LAMBDA n, i : IF n = i - 1 /\ s[i] = v THEN i ELSE n, 0, Range1(Len(s)))

RECURSIVE B58Digits(_)     \* most significant first
B58Digits(num) == IF num = <<>> THEN <<>>
                  ELSE LET d == BMod(num, <<58>>)
                       IN Append(B58Digits(BDiv(num, <<58>>)), B58Alphabet[(IF d = <<>> THEN 0 ELSE d[1]) + 1])
Ones(n) == [i \in 1..n |-> 49]
B58Encode(bytes) == Ones(LeadingCount(bytes, 0)) \o B58Digits(FromBE(bytes))

B58Num(text) == FoldLeft(LAMBDA n, c : BAdd(BMul(n, <<58>>), BFromInt(B58Value[c])), <<>>, text)
\* Requires IsB58(text). The only byte sequence that B58Encode maps to text.
B58Decode(text) == LET num == B58Num(text) IN Zeros(LeadingCount(text, 49)) \o ToBE(num, Len(num))

CheckBytes(data) == SubSeq(Sha256d(data), 1, 4)
B58CheckEncode(data) == B58Encode(data \o CheckBytes(data))
\* [ok, data]
B58CheckDecode(text) ==
    IF ~IsB58(text) THEN [ok |-> FALSE, data |-> <<>>]
    ELSE LET b == B58Decode(text)
             n == Len(b)
         IN IF n < 4 THEN [ok |-> FALSE, data |-> <<>>]
            ELSE LET d == SubSeq(b, 1, n - 4)
                 IN IF CheckBytes(d) = SubSeq(b, n - 3, n) THEN [ok |-> TRUE, data |-> d] ELSE [ok |-> FALSE, data |-> <<>>]
=============================================================================

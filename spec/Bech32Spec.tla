------------------------------ MODULE Bech32Spec ------------------------------
(***************************************************************************)
(* Bech32 and segregated-witness addresses (BIP 173), with the library's   *)
(* documented choices: the encoder takes lowercase human-readable parts,   *)
(* version 0 programs of every length 2..40 are addresses, any prefix is.  *)
(* Text is a sequence of character codes.                                  *)
(***************************************************************************)
EXTENDS Words, BigNat

\* "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
B32Alphabet == <<113,112,122,114,121,57,120,56,103,102,50,116,118,100,119,48,
                 115,51,106,110,53,52,107,104,99,101,54,109,117,97,55,108>>
B32Chars == {B32Alphabet[i] : i \in 1..32}
B32Value == [c \in B32Chars |-> (CHOOSE i \in 1..32 : B32Alphabet[i] = c) - 1]

IsUpper(c) == 65 <= c /\ c <= 90
IsLower(c) == 97 <= c /\ c <= 122
ToLower(s) == [i \in 1..Len(s) |-> IF IsUpper(s[i]) THEN s[i] + 32 ELSE s[i]]
MixedCase(s) == (\E i \in 1..Len(s) : IsUpper(s[i])) /\ (\E i \in 1..Len(s) : IsLower(s[i]))

ValidHuman(h) == /\ 1 <= Len(h) /\ Len(h) <= 83
                 /\ \A i \in 1..Len(h) : 33 <= h[i] /\ h[i] <= 126 /\ ~IsUpper(h[i])
ExpandHuman(h) == [i \in 1..Len(h) |-> h[i] \div 32] \o <<0>> \o [i \in 1..Len(h) |-> h[i] % 32]

\* 30-bit remainders are words of two 16-bit limbs.
B32Generator == << <<15210, 22450>>, <<9808, 36461>>, <<7841, 6650>>, <<15682, 13277>>, <<10772, 25267>> >>
PolyStep(chk, v) ==
    LET top == chk[1] \div 512
        low == <<chk[1] % 512, chk[2]>>
        base == WOr(WRotl(low, 5), <<0, v>>)
    IN FoldLeft(LAMBDA acc, i : IF (top \div 2^(i-1)) % 2 = 1 THEN WXor(acc, B32Generator[i]) ELSE acc, base, Range1(5))
Polymod(groups) == FoldLeft(PolyStep, <<0, 1>>, groups)
B32Checksum(h, groups) ==
    LET c == WXor(Polymod(ExpandHuman(h) \o groups \o <<0,0,0,0,0,0>>), <<0, 1>>)
    IN [i \in 1..6 |-> LET w == WShr(c, 5 * (6 - i)) IN w[2] % 32]

CanEncode32(h, groups) == /\ ValidHuman(h)
                          /\ \A i \in 1..Len(groups) : 0 <= groups[i] /\ groups[i] <= 31
                          /\ Len(h) + Len(groups) + 7 <= 90
B32Encode(h, groups) == LET all == groups \o B32Checksum(h, groups)
                        IN h \o <<49>> \o [i \in 1..Len(all) |-> B32Alphabet[all[i] + 1]]

LastIndexOf(s, c) == FoldLeft(LAMBDA acc, i : IF s[i] = c THEN i ELSE acc, 0, Range1(Len(s)))
No32 == [ok |-> FALSE, human |-> <<>>, groups |-> <<>>]
\* [ok, human, groups]
B32Decode(text) ==
    IF Len(text) > 90 \/ MixedCase(text) THEN No32
    ELSE LET s == ToLower(text)
             sep == LastIndexOf(s, 49)
             h == SubSeq(s, 1, sep - 1)
             d == SubSeq(s, sep + 1, Len(s))
         IN IF sep = 0 \/ ~ValidHuman(h) \/ Len(d) < 6 \/ (\E i \in 1..Len(d) : d[i] \notin B32Chars) THEN No32
            ELSE LET g == [i \in 1..Len(d) |-> B32Value[d[i]]]
                 IN IF Polymod(ExpandHuman(h) \o g) # <<0, 1>> THEN No32
                    ELSE [ok |-> TRUE, human |-> h, groups |-> SubSeq(g, 1, Len(g) - 6)]

----------------------------------------------------------------------------
(* Segregated witness programs *)
\* 8-bit bytes to 5-bit groups, zero-padded at the end: through the bit string.
BitsOf(s, width) == [j \in 1..(width * Len(s)) |-> (s[((j - 1) \div width) + 1] \div 2^(width - 1 - ((j - 1) % width))) % 2]
GroupAt(bits, width, i) == FoldLeft(LAMBDA acc, k : LET j == (i - 1) * width + k
                                                    IN acc * 2 + (IF j <= Len(bits) THEN bits[j] ELSE 0), 0, Range1(width))
BytesToGroups(prog) == LET bits == BitsOf(prog, 8)
                       IN [i \in 1..((Len(bits) + 4) \div 5) |-> GroupAt(bits, 5, i)]

CanEncodeSegwit(h, ver, prog) ==
    /\ 0 <= ver /\ ver <= 16 /\ 2 <= Len(prog) /\ Len(prog) <= 40
    /\ CanEncode32(h, <<ver>> \o BytesToGroups(prog))
SegwitEncode(h, ver, prog) == B32Encode(h, <<ver>> \o BytesToGroups(prog))

NoSegwit == [ok |-> FALSE, human |-> <<>>, ver |-> 0, prog |-> <<>>]
SegwitDecode(text) ==
    LET b == B32Decode(text)
    IN IF ~b.ok \/ Len(b.groups) < 1 THEN NoSegwit
       ELSE IF b.groups[1] > 16 THEN NoSegwit
       ELSE LET bits == BitsOf(SubSeq(b.groups, 2, Len(b.groups)), 5)
                n == Len(bits) \div 8
            IN IF n < 2 \/ n > 40 \/ Len(bits) - 8 * n > 4 \/ (\E j \in (8*n + 1)..Len(bits) : bits[j] # 0) THEN NoSegwit
               ELSE [ok |-> TRUE, human |-> b.human, ver |-> b.groups[1], prog |-> [i \in 1..n |-> GroupAt(bits, 8, i)]]
=============================================================================

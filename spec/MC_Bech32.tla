------------------------------ MODULE MC_Bech32 ------------------------------
(***************************************************************************)
(* Bech32 and segwit addresses: a writer with any short prefix, version    *)
(* and program, whose text anybody may tamper with.  Decoding inverts      *)
(* encoding, accepts exactly the encodings, and the library's bit-buffer   *)
(* regrouping is what the definition through bit strings says.             *)
(* Supports C21, C22.                                                      *)
(***************************************************************************)
EXTENDS Bech32Spec

CONSTANTS GroupSet, MaxGroups, ProgSet, MaxProg, Strangers
Humans == {<<97>>, <<98, 49>>, <<33, 126>>}

\* the library's regrouping with a bit buffer (a number below 2^12) of n bits
AlgRegroup8to5(prog) ==
    LET step(acc, b) == LET full(st) == IF st.n >= 5 THEN [out |-> Append(st.out, st.buf \div 2^(st.n - 5)), buf |-> st.buf % 2^(st.n - 5), n |-> st.n - 5] ELSE st
                        IN full(full([out |-> acc.out, buf |-> acc.buf * 256 + b, n |-> acc.n + 8]))
        end == FoldLeft(step, [out |-> <<>>, buf |-> 0, n |-> 0], prog)
    IN IF end.n > 0 THEN Append(end.out, end.buf * 2^(5 - end.n)) ELSE end.out
AlgRegroup5to8(groups) ==
    FoldLeft(LAMBDA acc, g : LET buf == acc.buf * 32 + g
                                 n == acc.n + 5
                             IN IF n >= 8 THEN [out |-> Append(acc.out, buf \div 2^(n - 8)), buf |-> buf % 2^(n - 8), n |-> n - 8]
                                ELSE [out |-> acc.out, buf |-> buf, n |-> n],
             [out |-> <<>>, buf |-> 0, n |-> 0], groups)

VARIABLES kind, human, data, text
vars == <<kind, human, data, text>>
Init == /\ kind \in {"groups", "prog"} /\ human \in Humans /\ data = <<>> /\ text = <<>>
Grow == /\ text = <<>> /\ UNCHANGED <<kind, human, text>>
        /\ \/ kind = "groups" /\ Len(data) < MaxGroups /\ \E g \in GroupSet : data' = Append(data, g)
           \/ kind = "prog" /\ Len(data) < MaxProg /\ \E b \in ProgSet : data' = Append(data, b)
Write == /\ text = <<>> /\ UNCHANGED <<kind, human, data>>
         /\ \/ kind = "groups" /\ CanEncode32(human, data) /\ text' = B32Encode(human, data)
            \/ kind = "prog" /\ \E ver \in {0, 1, 16} : CanEncodeSegwit(human, ver, data) /\ text' = SegwitEncode(human, ver, data)
\* One character replaced by another, dropped, doubled; two neighbours swapped; upper case; mixed case.
Tamper ==
    /\ kind \in {"groups", "prog"} /\ text # <<>>
    /\ kind' = "tampered" /\ UNCHANGED <<human, data>>
    /\ LET n == Len(text)
       IN \/ \E i \in 1..n, c \in B32Chars \cup Strangers : c # text[i] /\ text' = [text EXCEPT ![i] = c]
          \/ \E i \in 1..n : text' = SubSeq(text, 1, i - 1) \o SubSeq(text, i + 1, n)
          \/ \E i \in 1..n : text' = SubSeq(text, 1, i) \o SubSeq(text, i, n)
          \/ \E i \in 1..(n - 1) : text[i] # text[i + 1] /\ text' = [text EXCEPT ![i] = text[i + 1], ![i + 1] = text[i]]
Next == Grow \/ Write \/ Tamper
Spec == Init /\ [][Next]_vars

Upper(s) == [i \in 1..Len(s) |-> IF IsLower(s[i]) THEN s[i] - 32 ELSE s[i]]
HasLetter(s) == \E i \in 1..Len(s) : IsLower(s[i])
Written == kind # "tampered" /\ text # <<>> =>
    LET up == Upper(text)
    IN /\ B32Decode(text).ok /\ B32Decode(up) = B32Decode(text)
       /\ kind = "groups" => B32Decode(text) = [ok |-> TRUE, human |-> human, groups |-> data]
       /\ kind = "prog" => LET s == SegwitDecode(text)
                           IN s.ok /\ s.human = human /\ s.prog = data /\ SegwitEncode(human, s.ver, s.prog) = text
       /\ \A i \in 1..Len(text) : IsLower(text[i]) /\ HasLetter(SubSeq(text, 1, i - 1) \o SubSeq(text, i + 1, Len(text)))
                                   => ~B32Decode([text EXCEPT ![i] = text[i] - 32]).ok
\* What decodes is an encoding of what it decodes to; a damaged text of the same length never is one unless the separator moved.
Damaged == kind = "tampered" =>
    LET d == B32Decode(text)
        s == SegwitDecode(text)
    IN /\ d.ok => CanEncode32(d.human, d.groups) /\ B32Encode(d.human, d.groups) = ToLower(text)
       /\ s.ok => CanEncodeSegwit(s.human, s.ver, s.prog) /\ SegwitEncode(s.human, s.ver, s.prog) = ToLower(text)
Regroup ==
    /\ kind = "prog" => /\ BytesToGroups(data) = AlgRegroup8to5(data)
                        /\ LET back == AlgRegroup5to8(BytesToGroups(data)) IN back.out = data /\ back.buf = 0 /\ back.n < 5
    /\ kind = "groups" => LET bits == BitsOf(data, 5)
                              n == Len(bits) \div 8
                              alg == AlgRegroup5to8(data)
                          IN /\ alg.out = [i \in 1..n |-> GroupAt(bits, 8, i)]
                             /\ (alg.n >= 5 \/ alg.buf # 0) = (Len(bits) - 8 * n > 4 \/ \E j \in (8*n + 1)..Len(bits) : bits[j] # 0)
=============================================================================

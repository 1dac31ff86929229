------------------------------ MODULE MC_Wallet ------------------------------
(***************************************************************************)
(* Wallets (the actions WNew, WChild, XprvEnc, XprvDec of BitcoinCrypto)   *)
(* over a small curve and with small stand-ins for the hash functions (the *)
(* .cfg substitutes both), so that the rare cases, a derived number beyond *)
(* the order or a zero key, are common.  An owner derives children into    *)
(* either register, also over the parent; a text goes out and comes back,  *)
(* possibly damaged.  Supports C23, C24.                                   *)
(***************************************************************************)
EXTENDS BitcoinCrypto

CONSTANTS ToyPrime, ToyOrder, ToyX, ToyY, MaxSteps, Keys, Depths

ToyP == BFromInt(ToyPrime)
ToyN == BFromInt(ToyOrder)
ToyG == <<BFromInt(ToyX), BFromInt(ToyY)>>
Small(n) == IF n = <<>> THEN 0 ELSE n[1]
Multiples == FoldLeft(LAMBDA acc, k : Append(acc, GAdd(acc[k], ToyG)), <<Identity>>, [k \in 1..ToyOrder |-> k])
Log == [q \in {Multiples[k] : k \in 1..ToyOrder} |-> (CHOOSE k \in 1..ToyOrder : Multiples[k] = q) - 1]
ToyMul(k, Q) == Multiples[((Small(BMod(k, ToyN)) * Log[Q]) % ToyOrder) + 1]

Mix(s, salt) == FoldLeft(LAMBDA acc, b : (acc * 5 + b + 1) % 251, salt, s)
\* left half: a number that is now and then not below the order; right half: the new chain code
ToyMac(key, msg) == Zeros(31) \o <<Mix(key \o msg, 3) % (ToyOrder + 4)>> \o Zeros(31) \o <<Mix(key \o msg, 4) % 5>>
ToyHash20(data) == Zeros(19) \o <<Mix(data, 9) % 4>>
ToyHash32(data) == <<Mix(data, 1), Mix(data, 2), Mix(data, 3), Mix(data, 5)>> \o Zeros(28)

Indexes == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<255, 255, 255, 255>>}

VARIABLES text, steps, last     \* last: what the last step was
vars == <<u, f, p, h, d, out, w, leak, text, steps, last>>

Init ==
    /\ u = <<>> /\ f = <<>> /\ p = <<>> /\ h = <<>> /\ d = <<>> /\ leak = {}
    /\ out = [r |-> <<>>, s |-> <<>>, key |-> <<>>]
    /\ text = <<>> /\ steps = 0 /\ last = <<"start">>
    /\ \E k \in Keys, dep \in Depths : w = <<Node(BFromInt(k), Zeros(32), dep, Zeros(4), Zeros(4)), BlankNode>>
Next ==
    /\ steps < MaxSteps /\ steps' = steps + 1
    /\ \/ /\ UNCHANGED text
          /\ \E k \in 1..2, j \in 1..2, i \in Indexes : WChild(k, j, i) /\ last' = <<"child", k, j, i, w[j]>>
       \/ \E k \in 1..2 : w[k].key # BZero /\ text' = XprvEncode(w[k]) /\ XprvEnc(k, text') /\ last' = <<"write", k>>
       \/ /\ text # <<>> /\ UNCHANGED text
          /\ \E k \in 1..2 : XprvDec(k, text, 1) /\ last' = <<"read", k, w>>
       \/ /\ text # <<>> /\ UNCHANGED text
          /\ \E k \in 1..2, i \in {1, 5, 60, Len(text)}, c \in {49, 122, 48} :
                LET bad == [text EXCEPT ![i] = c]
                IN bad # text /\ (\E ret \in Bit : XprvDec(k, bad, ret)) /\ last' = <<"read bad", k, w, bad>>
Spec == Init /\ [][Next]_vars

Kind == last[1]
\* Whatever is in a register is a wallet that the specification defines.
Consistent == WalletOK /\ \A k \in 1..2 : w[k] = BlankNode \/ (InScalarRange(w[k].key) /\ w[k].pub = PubTriple(w[k].key))
ChildIs == Kind = "child" =>
    LET k == last[2]
        parent == last[5]
        i == last[4]
        child == w[k]
        mac == ChildMac(parent, i)
        left == FromBE(SubSeq(mac, 1, 32))
        sum == GAdd(GMul(left, BaseG), ToGroup(parent.pub))
    IN IF BLe(OrderN, left) \/ sum = Identity THEN child = BlankNode
       ELSE /\ ToGroup(child.pub) = sum          \* public derivation agrees with private derivation
            /\ child.depth = (parent.depth + 1) % 256 /\ child.index = i
            /\ child.parent = SubSeq(Hash160(Compressed(parent.pub)), 1, 4)
            /\ k # last[3] => w[last[3]] = parent
\* Public information is enough for children that are not hardened, and not for the others.
PublicData == Kind = "child" /\ ~IsHardened(last[4]) =>
    ChildMac([last[5] EXCEPT !.key = <<>>], last[4]) = ChildMac(last[5], last[4])
ReadBack == Kind = "write" => /\ Len(text) = 111 /\ XprvDecode(text) = [ok |-> TRUE, node |-> w[last[2]]]
Reads == Kind = "read" => XprvEncode(w[last[2]]) = text /\ \A k \in 1..2 : k # last[2] => w[k] = last[3][k]
BadReads == Kind = "read bad" => /\ w # last[3] => XprvEncode(w[last[2]]) = last[4]
                                 /\ \A k \in 1..2 : k # last[2] => w[k] = last[3][k]
=============================================================================

-------------------------------- MODULE Bip32 --------------------------------
(***************************************************************************)
(* BIP 32 private-key derivation.  A node is a record                      *)
(*   [key: number, chain: 32 bytes, depth: 0..255, index: 4 bytes (big     *)
(*    endian), parent: 4 bytes, pub: normalized triple].                   *)
(***************************************************************************)
EXTENDS EcdsaSpec, Base58

PubTriple(k) == NormalTriple(GMul(k, BaseG))
Node(k, chain, depth, index, parent) ==
    [key |-> k, chain |-> chain, depth |-> depth, index |-> index, parent |-> parent, pub |-> PubTriple(k)]
BlankNode == [key |-> <<>>, chain |-> Zeros(32), depth |-> 0, index |-> Zeros(4), parent |-> Zeros(4), pub |-> NormalTriple(Identity)]

IsHardened(index) == index[1] >= 128
ChildMac(node, index) ==
    HmacSha512(node.chain, (IF IsHardened(index) THEN <<0>> \o ToBE(node.key, 32) ELSE Compressed(node.pub)) \o index)
Child(node, index) ==
    LET mac == ChildMac(node, index)
        num == FromBE(SubSeq(mac, 1, 32))
        k == BAddMod(num, node.key, OrderN)
    IN IF BLe(OrderN, num) \/ k = <<>> THEN BlankNode
       ELSE Node(k, SubSeq(mac, 33, 64), (node.depth + 1) % 256, index, SubSeq(Hash160(Compressed(node.pub)), 1, 4))

\* The 78-byte serialization of an extended private key.
XprvPayload(node) == <<4, 136, 173, 228>> \o <<node.depth>> \o node.parent \o node.index \o node.chain \o <<0>> \o ToBE(node.key, 32)
XprvEncode(node) == B58CheckEncode(XprvPayload(node))
NoXprv == [ok |-> FALSE, node |-> BlankNode]
XprvDecode(text) ==
    LET d == B58CheckDecode(text)
    IN IF ~d.ok \/ Len(d.data) # 78 THEN NoXprv
       ELSE LET p == d.data
                k == FromBE(SubSeq(p, 47, 78))
            IN IF SubSeq(p, 1, 4) # <<4, 136, 173, 228>> \/ p[46] # 0 \/ ~InScalarRange(k) THEN NoXprv
               ELSE [ok |-> TRUE, node |-> Node(k, SubSeq(p, 14, 45), p[5], SubSeq(p, 10, 13), SubSeq(p, 6, 9))]

----------------------------------------------------------------------------
(* Addresses and wallet import format *)
AddressPayload(version, hash) == <<version>> \o hash
AddressEncode(version, hash) == B58CheckEncode(AddressPayload(version, hash))
\* [ok, version, hash]
AddressDecode(text) ==
    LET d == B58CheckDecode(text)
    IN IF ~d.ok \/ Len(d.data) # 21 THEN [ok |-> FALSE, version |-> 0, hash |-> <<>>]
       ELSE [ok |-> TRUE, version |-> d.data[1], hash |-> SubSeq(d.data, 2, 21)]
WifEncode(version, key, compressed) ==
    B58CheckEncode(<<version>> \o ToBE(key, 32) \o (IF compressed THEN <<1>> ELSE <<>>))
NoWif == [ok |-> FALSE, version |-> 0, key |-> <<>>, compressed |-> FALSE]
WifDecode(text) ==
    LET d == B58CheckDecode(text)
        n == Len(d.data)
    IN IF ~d.ok \/ n \notin {33, 34} THEN NoWif
       ELSE IF n = 34 /\ d.data[34] # 1 THEN NoWif
       ELSE [ok |-> TRUE, version |-> d.data[1], key |-> FromBE(SubSeq(d.data, 2, 33)), compressed |-> n = 34]
=============================================================================

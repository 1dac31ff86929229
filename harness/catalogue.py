"""Writes properties.jsonl and MANIFEST.json (python3 harness/catalogue.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "java/io/nayuki/bitcoin/crypto/"
U = ["cpp/Uint256.cpp", "cpp/Uint256.hpp", "cpp/AsmX8664.s", J + "Int256Math.java"]
F = ["cpp/FieldInt.cpp", "cpp/FieldInt.hpp", "cpp/AsmX8664.s", J + "Int256Math.java"]
PT = ["cpp/CurvePoint.cpp", "cpp/CurvePoint.hpp", J + "CurvePointMath.java"]
EC = ["cpp/Ecdsa.cpp", "cpp/Ecdsa.hpp", J + "Ecdsa.java"]


def P(pid, title, statement, over, text, why, files, mech, observe, note):
    return dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}), note


TRACE = "Calls of the real code are replayed and every result is checked by TLC against the TLA+ specification; "
PROPS = [
    P("C01", "256-bit addition, subtraction and shifts are exact, with carry and enable flag",
      "For all 256-bit numbers, addition and subtraction give the result modulo 2^256 and report the exact carry or borrow, and the one-bit shifts give the shifted value and report the bit shifted out on the left. With the enable flag at 0 the number keeps its value and no carry or borrow is reported; with 1 the operation takes place. This is so in the portable C++ code, in the x86-64 assembly code and in the Java code.",
      ["inputs", "configurations"], "All pairs of 256-bit numbers, both enable flags, all three implementations, any optimization level.",
      "2^512 operand pairs; the tests try a few dozen triples, and only in the configuration that was built, so a carry that is lost between two particular words, or a flag register that happens to be clean, passes.",
      U, [("word-by-word carry chain with mask from the enable flag", "Uint256::add/subtract/shiftLeft1/shiftRight1"), ("adc/sbb chains", "AsmX8664.s"), ("carry chain on int words", "Int256Math.uintAdd/uintSubtract/uintShiftLeft1/uintShiftRight1")],
      ["the returned carry/borrow/bit and the number afterwards"],
      TRACE + "operands are built to start, stop and propagate carries at every word."),
    P("C02", "256-bit comparison, conditional move/swap and byte/hex conversion are exact",
      "The six order relations on 256-bit numbers, and the corresponding ones on field elements, agree with the order of the integers they denote. Conditional replacement and conditional swap change both numbers completely when enabled and not at all when disabled. Conversion to and from big-endian bytes and hexadecimal text loses nothing, in all implementations; hexadecimal digits are accepted in both letter cases.",
      ["inputs", "configurations"], "All pairs of 256-bit numbers, flags, 32-byte arrays and 64-digit texts.",
      "Comparisons that look at a word too few, or are wrong only when the most significant different word has its top bit set, need particular pairs of numbers; the tests have a few.",
      U + F[:2], [("borrow-style comparison loop", "Uint256::operator<, operator=="), ("masking", "replace/swap"), ("conversion loops", "getBigEndianBytes, constructors; Int256Math.bytesToUint/uintToBytes/hexToUint/uintToHex")],
      ["returned truth values, bytes and texts; the numbers afterwards"],
      TRACE + "pairs are equal, adjacent, or differ in one chosen bit, byte or word."),
    P("C03", "The modular reciprocal is exact for every odd modulus and every coprime argument",
      "For every odd modulus greater than 1 and every smaller number that is coprime to it, the reciprocal operation leaves the unique smaller number whose product with the argument is 1 modulo the modulus. The reciprocal of 0 is 0. The modulus is unchanged, in all implementations.",
      ["inputs", "configurations"], "All odd moduli 3..2^256-1 and all coprime smaller arguments.",
      "The number of halvings, the swaps and the corrections depend on every bit of both numbers; the tests use the field prime and a few others.",
      U, [("binary extended GCD with a fixed number of steps", "Uint256::reciprocal, Int256Math.reciprocal")], ["the number afterwards"],
      TRACE + "the specification checks the product, so nothing is trusted about the algorithm."),
    P("C04", "Field arithmetic is exact modulo the prime and always fully reduced",
      "On numbers below the secp256k1 field prime, addition, subtraction, doubling, squaring, multiplication and reciprocal give the exact result modulo the prime. Every result is itself below the prime, so equality of elements is equality of their words. This also holds when both operands are the same element and in every implementation.",
      ["inputs", "configurations"], "All pairs of field elements, including the largest ones and those whose product lies next to a multiple of the prime.",
      "A reduction step that is wrong by one subtraction, or a carry that is dropped, shows for about one operand pair in 2^32 or fewer; the tests have some hundred random pairs.",
      F, [("multiplication with quotient estimation (Barrett) and one conditional subtraction", "FieldInt::multiply, asm_FieldInt_multiply256x256eq512, asm_FieldInt_multiplyBarrettStep*; Int256Math.fieldMultiply")], ["the element afterwards"],
      TRACE + "operands include pairs whose product is next to a multiple of the prime, which the quotient estimate depends on."),
    P("C05", "Operations write only their destination, wherever operands and scratch space lie",
      "An operation of the number, field, point and signature modules changes only its documented destination (and, in Java, the scratch area of the size it asks for): all other objects, its other operands and memory next to them included, keep their contents. The result does not depend on where the operands are placed in memory, on their alignment, on whether one object is given for several operands where the interface allows it (points added to, and numbers swapped with or compared with themselves included), or on what the scratch area contained before.",
      ["inputs", "configurations", "histories"], "All operations, operand positions (aliased where allowed), alignments, scratch contents and sequences of such operations.",
      "The tests use freshly allocated operands in a fixed layout with clean scratch space.",
      U + F[:2] + PT + EC[2:], [("copying the operands before writing the result; declared scratch sizes", "Int256Math, CurvePointMath"), ("assembly stores to the destination only", "AsmX8664.s")], ["all objects of the session and guard words around them after every call"],
      TRACE + "the specification's frame conditions cover every object of the session; guard words and AddressSanitizer watch the rest."),
    P("C06", "Point addition and doubling are the group law on every projective representation",
      "For all curve points, including the identity, adding and doubling give a representation of the sum in the group of secp256k1. This holds for every projective representation of the operands, equal or opposite points included, and all results are valid representations with reduced coordinates.",
      ["inputs", "configurations"], "All pairs of points, all representations (any scale factor), all implementations.",
      "The exceptional cases (equal points with different scale factors, opposite points, identity) multiply with every representation; the tests use few representations, mostly normalized.",
      PT, [("projective formulas with selection of the exceptional cases", "CurvePoint::add, twice; CurvePointMath.add, twice")], ["the point afterwards"],
      TRACE + "the specification computes the sum with the affine definition of the group."),
    P("C07", "Scalar multiplication is exact for every 256-bit scalar and every point",
      "Multiplying a point by any 256-bit number gives the group element that is the sum of that many copies, for all representations of the point and all scalars, including 0, multiples of the group order and numbers above it. The public point of a private exponent is that multiple of the base point, normalized.",
      ["inputs", "configurations"], "All scalars 0..2^256-1, all points and representations.",
      "Windowed table lookups and exceptional additions are reached only by scalars with particular digits; the tests try a list of fixed scalars.",
      PT, [("window table, constant-time lookup and double-and-add", "CurvePoint::multiply, CurvePointMath.multiply"), ("public point", "CurvePoint::privateExponentToPublicPoint")], ["the point afterwards"],
      TRACE + "scalars cover each window digit at each position."),
    P("C08", "Normalization, point equality, curve membership and compression are exact",
      "Normalizing gives the unique representation with z = 1 (or that of the identity) of the same point. The membership test accepts exactly the normalized pairs that satisfy the curve equation and not the identity, the identity test is true for exactly the identity, and equality of normalized points is equality of points. The compressed form is the parity byte and the x coordinate.",
      ["inputs", "configurations"], "All points, representations and off-curve coordinate pairs.",
      "Which inputs a membership test wrongly accepts is not seen on a handful of points; zero coordinates and points of twists need to be constructed.",
      PT, [("normalize/isOnCurve/isZero/operator==/toCompressedPoint", "CurvePoint.cpp, CurvePointMath.java")], ["returned truth values and bytes, the point afterwards"],
      TRACE + "off-curve pairs are one coordinate, sign or constant away from the curve."),
    P("C09", "ECDSA signing gives the defined low-S signature or refuses, outputs untouched",
      "For every private key in range, every message hash and every nonce, signing succeeds exactly when the nonce is in range and neither signature component is zero, and then gives r = x(kG) mod n and the smaller of s and n - s. On failure it reports so and leaves the outputs as they were. Key, hash and nonce are never changed. The signature verifies under the matching public key.",
      ["inputs", "configurations"], "All keys 1..n-1, all 2^256 hashes, all 2^256 nonces.",
      "Hashes at or above the group order, nonces out of range and keys that make a component zero must be constructed; the tests are fixed vectors.",
      EC, [("nonce check, low-S selection, conditional output", "Ecdsa::sign, Ecdsa.sign"), ("multiplication modulo the order", "multiplyModOrder")], ["returned truth value and outputs"],
      TRACE + "keys are solved for so that s is 0, n/2 or next to it."),
    P("C10", "Deterministic signing uses the nonce derived from key and message, nothing else",
      "Signing with the derived nonce gives exactly the signature that signing with the nonce HMAC-SHA-256(key = private exponent bytes, message = message hash bytes) gives, for every private key and message hash. It is the same every time and in both languages.",
      ["inputs", "configurations"], "All keys 1..n-1 and all message hashes.",
      "Byte order and reuse mistakes in deriving the nonce still give valid signatures; the tests compare a few.",
      EC + ["cpp/Sha256.cpp", J + "Sha256.java"], [("HMAC of the hash under the key", "Ecdsa::signWithHmacNonce, Ecdsa.signWithHmacNonce")], ["returned truth value and outputs"],
      TRACE + "the specification has its own SHA-256, HMAC and ECDSA."),
    P("C11", "ECDSA verification accepts exactly the valid signatures",
      "For every public point given in normalized form, message hash and pair (r, s) of 256-bit numbers, verification succeeds exactly when the point is a curve point other than the identity, r and s are both in 1..n-1, and the x coordinate of (z/s)G + (r/s)Q is r modulo n. Nothing else is accepted and no valid signature is refused, whichever of the two values of s it has.",
      ["inputs", "configurations"], "All points (also off the curve), hashes, and pairs (r, s) of 256-bit numbers.",
      "The accept set is exact: a missing range check, or an x coordinate above n that is compared unreduced, concerns inputs that no random or standard vector hits.",
      EC, [("range, curve and order checks; comparison modulo the order", "Ecdsa::verify, Ecdsa.verify")], ["returned truth value"],
      TRACE + "points are solved for so that rare x coordinates and exceptional additions occur."),
    P("C12", "SHA-256, double SHA-256 and HMAC-SHA-256 are right for every message and key",
      "For every message of every length the SHA-256 digest and the double SHA-256 digest are those of the standard, and for every key length and message the HMAC-SHA-256 is that of RFC 2104. In C++ the compression of whole blocks from a given state is also that of the standard.",
      ["inputs", "configurations"], "All messages and keys of all lengths, including lengths around block and padding boundaries and above 2^29 bytes (where the bit length needs more than 32 bits).",
      "Padding depends on the length modulo the block and the length field; the tests have fixed messages, none of them long.",
      ["cpp/Sha256.cpp", "cpp/Sha256.hpp", J + "Sha256.java"], [("compression and padding", "Sha256::getHash, compress, append, getHash; Sha256.getHash"), ("key preparation", "getHmac")], ["returned digest"],
      TRACE + "the specification is an independent statement of FIPS 180-4."),
    P("C13", "Streaming hashing depends only on the bytes appended, not on how they are cut up",
      "An object that hashes incrementally gives the digest of the concatenation of everything appended, however the bytes are divided among the calls, empty pieces included. A copy of an unfinished object continues independently of the original. This holds for every incremental hash that the C++ library offers.",
      ["histories", "inputs", "configurations"], "All sequences of appends, copies and finishes on several objects.",
      "The number of ways to cut a message is exponential; tests append once or in a few fixed pieces.",
      ["cpp/Sha256.cpp", "cpp/Sha256.hpp", "cpp/Sha512.cpp", "cpp/Sha512.hpp"], [("buffer and length", "Sha256/Sha512::append, getHash")],
      ["digest returned by finishing"],
      TRACE + "the specification's state is the sequence of bytes appended to each object."),
    P("C14", "SHA-512 and HMAC-SHA-512 are right for every message and key",
      "For every message of every length the SHA-512 digest is that of the standard, and for every key and message the HMAC-SHA-512 is that of RFC 2104, in both languages.",
      ["inputs", "configurations"], "All messages and keys of all lengths, including those around 112 and 128 bytes modulo the block and above 2^29 bytes.",
      "As for SHA-256: the tests have fixed messages of a few lengths.",
      ["cpp/Sha512.cpp", "cpp/Sha512.hpp", J + "Sha512.java"], [("compression, padding, key preparation", "Sha512::getHash, getHmac; Sha512.getHash, getHmac")], ["returned digest"],
      TRACE + "the specification is an independent statement of FIPS 180-4."),
    P("C15", "RIPEMD-160 is right for every message",
      "For every message of every length the RIPEMD-160 digest is the one its definition gives, in both languages.",
      ["inputs", "configurations"], "All messages of all lengths.", "The tests have fixed messages of a few lengths.",
      ["cpp/Ripemd160.cpp", "cpp/Ripemd160.hpp", J + "Ripemd160.java"], [("compression and padding", "Ripemd160::getHash, Ripemd160.getHash")], ["returned digest"],
      TRACE + "the specification is an independent statement of the definition."),
    P("C16", "Keccak-256 is right for every message",
      "For every message of every length the Keccak-256 digest (with the original padding, as Ethereum uses it) is the one its definition gives, in both languages.",
      ["inputs", "configurations"], "All messages of all lengths, including those that end one byte before a block boundary, where both padding bits share a byte.", "The tests have fixed messages of a few lengths.",
      ["cpp/Keccak256.cpp", "cpp/Keccak256.hpp", J + "Keccak256.java"], [("permutation and padding", "Keccak256::getHash, Keccak256.getHash")], ["returned digest"],
      TRACE + "the specification is an independent statement of the definition."),
    P("C17", "Hash values are immutable, compare by content and convert without loss",
      "A 32-byte hash value keeps the bytes it was made from, also when the array it was made from or an array it returned is changed later. Equality, ordering and hash codes are functions of the content, consistent with each other, and the text form is the hexadecimal of the bytes in reverse order, in both directions. Input of another length, or text that is not 64 hexadecimal digits, is refused in Java.",
      ["inputs", "histories"], "All 32-byte values and pairs of them; all texts.",
      "Comparison of bytes as signed numbers or stopping early concern pairs that differ in particular positions.",
      ["cpp/Sha256Hash.cpp", "cpp/Sha256Hash.hpp", J + "Sha256Hash.java"], [("copying in and out; comparison", "Sha256Hash")], ["returned bytes, texts, truth values, order and hash codes"],
      TRACE + "pairs differ in one chosen byte or bit."),
    P("C18", "C++ Base58Check encoding is exact for addresses and private keys",
      "For every version byte and every 20-byte hash, and for every version byte, 32-byte private key and compression flag, the text produced is the Base58Check encoding of the version, payload (with the marker byte when compressed) and checksum.",
      ["inputs"], "All version bytes, hashes and keys, including those with leading zero bytes.",
      "Leading zeros and long carries occur in few inputs; the tests have fixed vectors.",
      ["cpp/Base58Check.cpp", "cpp/Base58Check.hpp"], [("division by 58 and leading ones", "Base58Check::bytesToBase58Check"), ], ["returned text"],
      TRACE + "with blobs that have runs of 0x00 and 0xFF at either end."),
    P("C19", "C++ Base58Check decoding accepts exactly the encodings, else changes nothing",
      "Decoding an address or a private key succeeds exactly when the text is the encoding of a payload of the right length with a right checksum (and a right marker byte), and then gives the encoded values. Otherwise it reports failure and leaves all outputs as they were; results the caller does not ask for may be omitted.",
      ["inputs"], "All texts, including non-alphabet characters, extra or missing leading ones, overlong numbers and wrong checksums.",
      "The set of texts that must be refused is unbounded; the tests have a list.",
      ["cpp/Base58Check.cpp", "cpp/Base58Check.hpp"], [("length, alphabet, overflow, leading-zero and checksum checks", "Base58Check::pubkeyHashFromBase58Check, privateKeyFromBase58Check")], ["returned truth value and outputs"],
      TRACE + "texts are mutations of right ones and encodings of wrong payloads."),
    P("C20", "Java Base58Check encodes every byte array and decodes exactly the encodings",
      "Encoding any byte array gives its Base58Check text, and decoding that text gives the array back. Every other text is refused with an illegal-argument exception, never with another outcome.",
      ["inputs"], "All byte arrays of all lengths, including empty ones and leading zeros; all texts.",
      "Short texts, texts of ones only and wrong checksums are each rare; the tests have a list.",
      [J + "Base58Check.java"], [("big-integer conversion and checksum", "Base58Check.bytesToBase58, base58ToBytes")], ["returned text, bytes or exception"],
      TRACE + "with mutated texts and short payloads."),
    P("C21", "Bech32 encodes exactly the legal inputs and decodes exactly the legal texts",
      "For every legal prefix and sequence of 5-bit groups that fits the length limit, encoding gives the Bech32 text with the right checksum, and decoding it gives the same prefix and groups. Every text that is not such an encoding, by length, characters, mixed letter case, separator or checksum, is refused with an illegal-argument exception, and so is illegal input to encoding. Texts in upper case decode as the lower-case ones.",
      ["inputs"], "All prefixes, group sequences and texts.",
      "The refused texts are unbounded in number; each rule fails only for texts made for it.",
      [J + "Bech32.java"], [("checksum polynomial and syntax checks", "Bech32.bitGroupsToBech32, bech32ToBitGroups")], ["returned text, groups or exception"],
      TRACE + "each rule is violated alone."),
    P("C22", "Segwit addresses encode and decode exactly the legal witness programs",
      "For every legal prefix, witness version 0 to 16 and program of 2 to 40 bytes whose text fits, encoding gives the Bech32 text of the version and the program, and decoding gives them back. Texts with an illegal version or program length, or whose padding is not fewer than five zero bits, are refused with an illegal-argument exception, as is illegal input to encoding.",
      ["inputs"], "All versions, programs of all lengths, and texts.",
      "Padding and length rules depend on the program length modulo 5; the tests have the vectors of the standard.",
      [J + "Bech32.java"], [("bit regrouping", "Bech32.segwitToBech32, bech32ToSegwit")], ["returned text, values or exception"],
      TRACE + "each rule is violated alone, for every program length."),
    P("C23", "Hierarchical key derivation follows BIP 32 for every node and index",
      "For every private extended key and child index, hardened or not, deriving a child gives the key, chain code, depth, index and parent fingerprint that BIP 32 defines, and leaves the parent as it was (also when a node is replaced by its own child). The depth is one more than the parent's, in one byte.",
      ["inputs", "histories"], "All nodes, all 2^32 indexes and all sequences of derivations.",
      "Key sums that exceed the group order, leading zeros and hardened borders need particular inputs; the tests follow the published chains.",
      ["cpp/ExtendedPrivateKey.cpp", "cpp/ExtendedPrivateKey.hpp"], [("HMAC-SHA-512 and addition modulo the order", "ExtendedPrivateKey::deriveChildKey")], ["all fields of all nodes"],
      TRACE + "keys are chosen so that the sum wraps around the order."),
    P("C24", "Extended private keys are written and read back exactly",
      "Writing an extended private key gives the Base58Check text of its BIP 32 serialization. Reading succeeds exactly for such texts with the right length, version, zero prefix, checksum and a private key in 1..n-1, and gives exactly the fields that were written; otherwise it reports failure and leaves the target as it was.",
      ["inputs", "histories"], "All nodes and all texts.",
      "The set of texts to refuse is unbounded; the tests have the published keys.",
      ["cpp/Base58Check.cpp", "cpp/Base58Check.hpp", "cpp/ExtendedPrivateKey.hpp"], [("serialization and checks", "Base58Check::extendedPrivateKeyToBase58Check, extendedPrivateKeyFromBase58Check")], ["returned text and truth value, all fields of the node"],
      TRACE + "texts are encodings with one wrong field, and mutations."),
    P("C25", "Operations on secrets are constant-time: branches and addresses ignore values",
      "For every operation of the number, field, point, hash-value and signing modules that is documented as constant-time, the sequence of branches taken and of memory locations accessed is the same for all values of its operands (for signing: for all inputs that succeed). This holds for the C++ code, the x86-64 assembly code and the Java code.",
      ["inputs", "configurations"], "All pairs of operand values for each constant-time operation.",
      "A branch or table index that depends on a secret changes no result, so no functional test can see it.",
      U + F[:2] + PT + EC + ["cpp/Sha256Hash.cpp", J + "Sha256Hash.java"], [("masks and full-table scans instead of branches and indexing", "replace/swap/multiply and all comparisons")], ["basic blocks, load and store addresses, divisors of instrumented executions; single-stepped assembly"],
      "Executions of the instrumented code are observed and TLC checks that those of one class agree; sampled operands, source-level branches of the C++ and Java code (not what a compiler may add) and machine-level ones of the assembly."),
    P("C26", "Calls do not influence each other: no hidden state, safe to use from threads",
      "The result of every call depends only on its arguments and on the objects it is given, not on earlier calls with other objects. Calls on distinct objects may run at the same time in several threads without data races and give the results they give alone.",
      ["schedules", "histories", "inputs", "configurations"], "All sequences of calls and all schedules of concurrent calls on distinct objects.",
      "The tests run each call once, in one thread and in a fixed order; a static buffer or a remembered result passes.",
      ["cpp/Ecdsa.cpp", "cpp/CurvePoint.cpp", "cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Base58Check.cpp", J + "Ecdsa.java", J + "CurvePointMath.java", J + "Bech32.java"], [("no static mutable state", "whole library")], ["results and objects after every call; ThreadSanitizer reports"],
      TRACE + "sessions with near-identical calls, sequentially and in eight threads, with ThreadSanitizer for the C++ code; schedules are those that occurred."),
    P("C27", "Java calls with null or wrong-length arguments are refused, changing nothing",
      "In Java, a signing or verification call with a null argument or an array of the wrong length ends in a NullPointerException or IllegalArgumentException respectively, whichever argument it is and whatever the others are, and no array that was passed is written to. The same holds for hashing, hash values, number conversion from bytes or text, Base58Check and Bech32 calls given null, and for byte arrays of the wrong length given to hash values and number conversion.",
      ["inputs"], "Each argument of each of these calls, null or of each wrong length, alone and combined with other bad arguments.",
      "A check that is forgotten for one argument, or done after an output was written, shows only for calls with exactly that argument wrong; the tests hardly make such calls.",
      [J + "Ecdsa.java", J + "Sha256Hash.java", J + "Sha256.java", J + "Sha512.java", J + "Bech32.java", J + "Base58Check.java", J + "Int256Math.java"], [("null and length checks before any work", "start of the public methods")], ["exception, and all arrays afterwards"],
      TRACE + "every argument is made wrong alone, with every length up to 40 and some above."),
    P("C28", "Public constants are the standard's and stay so; byte and digit helpers exact",
      "The public constants (zero, one, the curve parameters, base point, identity and group order, the hardened-index border, the Base58 alphabet, the hexadecimal digits, digest and block sizes) have the values of the standards, whatever the order in which the library's object files are linked, and no sequence of calls changes them. The C++ helpers that parse a hexadecimal digit, copy bytes between possibly overlapping places (also zero bytes), and store a 32-bit number in big-endian order are exact for all arguments.",
      ["inputs", "histories", "configurations"], "All sequences of calls before a constant is read; orders in which the object files are linked; all integers as digits, all lengths and overlaps of copies, all 32-bit numbers.",
      "A constant that some call modifies, or an overlap copied in the wrong direction, does not show in tests that run one call at a time.",
      ["cpp/Uint256.cpp", "cpp/CurvePoint.cpp", "cpp/CurvePoint.hpp", "cpp/ExtendedPrivateKey.hpp", "cpp/Base58Check.cpp", "cpp/Utils.cpp", "cpp/Utils.hpp", J + "CurvePointMath.java", J + "Base58Check.java"], [("constants", "static members"), ("helpers", "Utils::parseHexDigit, copyBytes, storeBigUint32")], ["constants read after each session; returned values"],
      TRACE + "constants are read before, within and after sessions of every kind of call."),
    P("C29", "Assembly routines meet their stated contracts, calling convention and bounds",
      "Each x86-64 assembly routine computes what the header says for all input values (the multiplication and reduction steps for all 256-, 512- and 768-bit values, not only those that field elements lead to). It preserves the registers and control words that the calling convention says it must, whatever the other registers contain, and accesses no memory except its operands, for all alignments of 4 bytes.",
      ["inputs", "configurations"], "All operand values, enable flags, alignments, positions next to inaccessible memory, and contents of the other registers.",
      "The tests are not built with the assembly code at all, and an overwritten register or an access beyond an operand does harm only in callers that happen to use them.",
      ["cpp/AsmX8664.s", "cpp/AsmX8664.hpp"], [("the routines", "asm_Uint256_*, asm_FieldInt_*")], ["result, operands, preserved registers, stack and fenced memory after a direct call"],
      TRACE + "each routine is called directly with its operands next to inaccessible pages; deleting or exchanging single instructions was always noticed unless it changes nothing."),
    P("C30", "Operation counting alters no result and counts the same for all operand values",
      "In a C++ build that counts operations (COUNT_OPS, on which the program EcdsaOpCount rests) every call of the number, field, point and signature modules gives the same results as in an ordinary build. The total that one call of a constant-time operation reports is the same for all operand values and flags (for signing: in all successful executions; for the reciprocal: per modulus).",
      ["inputs", "configurations"], "All operand values of all operations that count.",
      "The counting program is not run by the tests, and it looks at one execution of each operation.",
      ["cpp/CountOps.hpp", "cpp/EcdsaOpCount.cpp"] + U[:1] + F[:1] + PT[:1] + EC[:1], [("reports of operations", "countOps")], ["totals reported per call; results"],
      "The specification's action Observe says that all observations of one class of calls are equal; here the observation is the total. Results are checked as for the other properties."),
]

TECH = "TLA+ specification; traces recorded from the real code checked by TLC"


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p, _ in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s --tier=thorough" % p["id"],
                     "technique": TECH if p["id"] != "C25" else "TLA+ specification (equal observations per class); execution traces of instrumented code checked by TLC",
                     "level": "model_checking", "level_note": note + " Trusted: TLC with the Java overrides of its number and word operators, which setup_cmd compares with their TLA+ definitions."} for p, note in PROPS],
         "not_applicable": []}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

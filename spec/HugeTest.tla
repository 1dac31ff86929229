------------------------------ MODULE HugeTest ------------------------------
(* Checks the Java evaluation of Huge!IterZero against its definition, for 0 to 3 blocks. *)
EXTENDS Huge
VARIABLES alg, n
Init == alg \in {"sha256", "sha512", "ripemd160", "keccak256"} /\ n = 0
Next == n < 3 /\ n' = n + 1 /\ UNCHANGED alg
Spec == Init /\ [][Next]_<<alg, n>>
Agree == /\ ZeroBlocks(alg, BFromInt(n)) = PZeroBlocks(alg, BFromInt(n))
         /\ LET m == Zeros(n * 70 + 1)
                txt == CASE n = 0 -> "1" [] n = 1 -> "71" [] n = 2 -> "141" [] n = 3 -> "211"
            IN HugeDigest(alg, txt) = (CASE alg = "sha256" -> Sha256(m) [] alg = "sha512" -> Sha512(m) [] alg = "ripemd160" -> Ripemd160(m) [] alg = "keccak256" -> Keccak256(m))
=============================================================================

SPECIFICATION Spec
CONSTANTS Depth = 5  Block = 128  Alg = "sha512"
  Digest <- ToyDigest
INVARIANTS Independent Emit
CHECK_DEADLOCK FALSE

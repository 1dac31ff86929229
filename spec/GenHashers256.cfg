SPECIFICATION Spec
CONSTANTS Depth = 5  Block = 64  Alg = "sha256"
  Digest <- ToyDigest
INVARIANTS Independent Emit
CHECK_DEADLOCK FALSE

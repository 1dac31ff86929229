SPECIFICATION Spec
CONSTANTS
  MaxBytes = 2  MaxChars = 3  MaxLen = 4
  ByteSet <- AllBytes
  CharSet <- AllChars
  Sha256d <- ToyHash
INVARIANTS Encodes Decodes Checked
CHECK_DEADLOCK FALSE

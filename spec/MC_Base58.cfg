SPECIFICATION Spec
CONSTANTS
  MaxBytes = 5  MaxChars = 6  MaxLen = 6
  ByteSet = {0, 1, 57, 58, 255}
  CharSet = {49, 50, 90, 122, 48}
  Sha256d <- ToyHash
INVARIANTS Encodes Decodes Checked
CHECK_DEADLOCK FALSE

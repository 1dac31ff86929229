SPECIFICATION Spec
CONSTANTS
  ToyPrime = 43  ToyOrder = 31  ToyX = 2  ToyY = 12
  MaxSteps = 5  Keys = {1, 2, 15, 29, 30}  Depths = {0, 254}
  FieldP <- ToyP
  OrderN <- ToyN
  BaseG <- ToyG
  GMul <- ToyMul
  HmacSha512 <- ToyMac
  Hash160 <- ToyHash20
  Sha256d <- ToyHash32
INVARIANTS TypeOK Consistent ChildIs PublicData ReadBack Reads BadReads
CHECK_DEADLOCK FALSE

SPECIFICATION GSpec
CONSTANTS
  ToyPrime = 43  ToyOrder = 31  ToyX = 2  ToyY = 12
  MaxSteps = 3  Keys = {1}  Depths = {254}
  FieldP <- ToyP
  OrderN <- ToyN
  BaseG <- ToyG
  GMul <- ToyMul
  HmacSha512 <- TameMac
  Hash160 <- ToyHash20
  Sha256d <- ToyHash32
INVARIANTS Live Emit
CHECK_DEADLOCK FALSE

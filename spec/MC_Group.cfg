SPECIFICATION Spec
CONSTANTS
  ToyPrime = 13  ToyOrder = 7  ToyX = 7  ToyY = 5  ScalarBits = 8  MaxScale = 12
  FieldP <- ToyP
  OrderN <- ToyN
  BaseG <- ToyG
INVARIANTS Laws Order Triples Refines Multiplies
CHECK_DEADLOCK FALSE

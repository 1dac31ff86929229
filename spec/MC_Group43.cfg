SPECIFICATION Spec
CONSTANTS
  ToyPrime = 43  ToyOrder = 31  ToyX = 2  ToyY = 12  ScalarBits = 8  MaxScale = 4
  FieldP <- ToyP
  OrderN <- ToyN
  BaseG <- ToyG
INVARIANTS Laws Order Triples Refines Multiplies
CHECK_DEADLOCK FALSE

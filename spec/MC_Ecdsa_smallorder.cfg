SPECIFICATION Spec
CONSTANTS
  ToyPrime = 79  ToyOrder = 67  ToyX = 1  ToyY = 18
  Keys = {1, 2, 33, 34, 66}  Messages = {0, 1, 12, 66, 67, 78, 79, 158, 255}
  FieldP <- ToyP
  OrderN <- ToyN
  BaseG <- ToyG
  GMul <- ToyMul
INVARIANTS Signs Sound KeyChecked
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  ToyPrime = 67  ToyOrder = 79  ToyX = 2  ToyY = 22
  Keys = {1, 2, 39, 40, 78}  Messages = {0, 1, 12, 66, 67, 78, 79, 158, 255}
  FieldP <- ToyP
  OrderN <- ToyN
  BaseG <- ToyG
  GMul <- ToyMul
INVARIANTS Signs Sound KeyChecked
CHECK_DEADLOCK FALSE

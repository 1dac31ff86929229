SPECIFICATION Spec
CONSTANTS
  ToyPrime = 43  ToyOrder = 31  ToyX = 2  ToyY = 12
  Keys = {1, 2, 15, 16, 30}  Messages = {0, 1, 9, 30, 31, 32, 70}
  FieldP <- ToyP
  OrderN <- ToyN
  BaseG <- ToyG
  GMul <- ToyMul
INVARIANTS Signs Sound KeyChecked
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  GroupSet = {0, 1, 16, 31}  MaxGroups = 5
  ProgSet = {0, 1, 255}  MaxProg = 5
  Strangers = {98, 49, 65, 81, 126, 127, 32}
INVARIANTS Written Damaged Regroup
CHECK_DEADLOCK FALSE

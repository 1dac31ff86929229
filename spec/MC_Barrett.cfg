SPECIFICATION Spec
CONSTANTS Bits = 7  MaxC = 11
INVARIANTS Reduces Multiplier
CHECK_DEADLOCK FALSE

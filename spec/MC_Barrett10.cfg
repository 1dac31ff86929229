SPECIFICATION Spec
CONSTANTS Bits = 10  MaxC = 31
INVARIANTS Reduces Multiplier
CHECK_DEADLOCK FALSE

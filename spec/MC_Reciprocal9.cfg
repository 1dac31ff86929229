SPECIFICATION Spec
CONSTANT Bits = 9
INVARIANTS Holds NoOverflow Result
CHECK_DEADLOCK FALSE

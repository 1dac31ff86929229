SPECIFICATION Spec
CONSTANT Bits = 6
INVARIANTS Holds NoOverflow Result
CHECK_DEADLOCK FALSE

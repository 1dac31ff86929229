SPECIFICATION Spec
CONSTANTS Profile = "ints"  Depth = 2
INVARIANT Valid
INVARIANT Emit
CHECK_DEADLOCK FALSE

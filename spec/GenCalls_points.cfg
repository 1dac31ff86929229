SPECIFICATION Spec
CONSTANTS Profile = "points"  Depth = 3
INVARIANT Valid
INVARIANT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Profile = "field"  Depth = 2
INVARIANT Valid
INVARIANT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Samples = 500
INVARIANT Agree
CHECK_DEADLOCK FALSE

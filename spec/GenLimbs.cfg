SPECIFICATION Spec
CONSTANT Words = 8
INVARIANT Agree
INVARIANT Emit
CHECK_DEADLOCK FALSE

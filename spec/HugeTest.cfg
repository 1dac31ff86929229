SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE

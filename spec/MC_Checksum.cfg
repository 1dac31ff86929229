SPECIFICATION Spec
CONSTANT Length = 89
VIEW View
INVARIANT Linear
POSTCONDITION AllDifferent
CHECK_DEADLOCK FALSE

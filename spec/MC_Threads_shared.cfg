SPECIFICATION Spec
CONSTANTS Threads = {1, 2}  Calls = 1  Private = FALSE
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
